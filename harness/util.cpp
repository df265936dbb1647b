// VT_PROP 25: atomic wrapper, scope guard, future polling.
// VT_PROP 26: collection, clamping, bit and hashing helpers.
// VT_PROP 27: OpenMP settings queries and the scoped thread-count change.
#include "common.hpp"

#include <deque>
#include <future>
#include <list>
#include <thread>
#include <unordered_map>

#ifdef _OPENMP
#include <omp.h>
#endif

#include <common_robotics_utilities/openmp_helpers.hpp>
#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/utility.hpp>

struct HashMe
{
  int a = 0;
  std::string s;
  bool b = false;
};
CRU_MAKE_HASHABLE(HashMe, t.a, t.s, t.b)

using namespace vt;
namespace cru = common_robotics_utilities;
namespace ut = cru::utility;
namespace omph = cru::openmp_helpers;

namespace
{
// ------------------------------------------------------------ atomics
template<typename T, std::memory_order O1, std::memory_order O2>
void AtomicHistory(Rng& rng, uint64_t)
{
  using A = ut::CopyableMoveableAtomic<T, O1>;
  using B = ut::CopyableMoveableAtomic<T, O2>;
  std::vector<A> as;
  std::vector<B> bs;
  std::vector<T> ma, mb;
  const auto val = [&]() -> T { return static_cast<T>(rng.Int(-1000, 1000)); };
  uint64_t h = 0;
  for (int i = 0; i < 40; i++)
  {
    const int op = static_cast<int>(rng.Int(0, 13));
    h = Combine(h, static_cast<uint64_t>(op));
    if (as.empty() || bs.empty() || op == 0)
    {
      const T v = val();
      as.push_back(A(v)); ma.push_back(v);
      bs.emplace_back(); mb.push_back(T{});
      continue;
    }
    const size_t x = rng.Size(0, as.size() - 1), y = rng.Size(0, as.size() - 1);
    const size_t z = rng.Size(0, bs.size() - 1);
    switch (op)
    {
      case 1: { A c(as[x]); as.push_back(c); const T t = ma[x]; ma.push_back(t); break; }
      case 2: { A src(as[x]); A c(std::move(src)); as.push_back(c); const T t = ma[x]; ma.push_back(t); break; }
      case 3: { A c(bs[z]); as.push_back(c); ma.push_back(mb[z]); break; }
      case 4: { B src(bs[z]); A c(std::move(src)); as.push_back(c); ma.push_back(mb[z]); break; }
      case 5: as[x] = as[y]; ma[x] = ma[y]; break;
      case 6: { A src(as[y]); as[x] = std::move(src); ma[x] = ma[y]; break; }
      case 7: bs[z] = as[x]; mb[z] = ma[x]; break;
      case 8: { A src(as[x]); bs[z] = std::move(src); mb[z] = ma[x]; break; }
      case 9: { const T v = val(); as[x].store(v); ma[x] = v; break; }
      case 10: { const T v = val(); bs[z].store(v); mb[z] = v; break; }
      case 11:
        if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value)
        {
          const T v = static_cast<T>(rng.Int(-50, 50));
          const T before = as[x].fetch_add(v);
          VT_CHECK(before == ma[x], "fetch-add-result", +before, " ", +ma[x]);
          ma[x] = static_cast<T>(ma[x] + v);
        }
        break;
      case 12:
        if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value)
        {
          const T v = static_cast<T>(rng.Int(-50, 50));
          const T before = as[x].fetch_sub(v);
          VT_CHECK(before == ma[x], "fetch-sub-result", +before, " ", +ma[x]);
          ma[x] = static_cast<T>(ma[x] - v);
        }
        break;
      case 13: { A& self = as[x]; as[x] = self; break; }
    }
    Count("atomic_operations");
  }
  for (size_t i = 0; i < as.size(); i++) { VT_CHECK(as[i].load() == ma[i], "atomic-value", i); }
  for (size_t i = 0; i < bs.size(); i++) { VT_CHECK(bs[i].load() == mb[i], "atomic-value", i); }
  Nontrivial(h);
}

// Concurrent adds and subtractions: every intermediate value handed out exactly
// once, nothing lost; copies taken meanwhile see a value that existed.
template<std::memory_order O>
void AtomicConcurrent(Rng& rng, uint64_t)
{
  ut::CopyableMoveableAtomic<int64_t, O> counter(5);
  const int nt = static_cast<int>(rng.Int(2, 4));
  const int per = static_cast<int>(rng.Int(20, 200));
  const bool up = rng.Chance(0.5);
  std::vector<std::vector<int64_t>> got(static_cast<size_t>(nt));
  std::atomic<int> go(0);
  std::atomic<bool> stop(false);
  std::atomic<uint64_t> bad(0), copies(0);
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; t++)
  {
    ts.emplace_back([&, t]
    {
      go.fetch_add(1);
      while (go.load() < nt) { std::this_thread::yield(); }
      for (int i = 0; i < per; i++)
      {
        got[static_cast<size_t>(t)].push_back(up ? counter.fetch_add(1) : counter.fetch_sub(1));
      }
    });
  }
  std::thread reader([&]
  {
    int64_t last = 5;
    while (!stop.load())
    {
      const ut::CopyableMoveableAtomic<int64_t, O> c(counter);
      const int64_t v = c.load();
      const int64_t d = up ? v - last : last - v;
      if (d < 0 || std::llabs(v - 5) > int64_t(nt) * per) { bad.fetch_add(1); }
      last = v;
      copies.fetch_add(1);
    }
  });
  for (auto& t : ts) { t.join(); }
  stop.store(true);
  reader.join();
  std::set<int64_t> seen;
  for (const auto& g : got)
  {
    for (size_t i = 0; i < g.size(); i++)
    {
      VT_CHECK(seen.insert(g[i]).second, "atomic-duplicate-value", g[i]);
      if (i > 0) { VT_CHECK(up ? g[i] > g[i - 1] : g[i] < g[i - 1], "atomic-not-monotone", g[i]); }
    }
  }
  VT_CHECK(counter.load() == 5 + (up ? 1 : -1) * int64_t(nt) * per, "atomic-lost-update", counter.load());
  VT_CHECK(bad.load() == 0, "atomic-copy-saw-impossible-value", bad.load());
  Count("atomic_copies_during_updates", copies.load());
  Nontrivial(Combine(static_cast<uint64_t>(nt * 1000 + per), copies.load()));
}

// With release/acquire or stronger orders, data published through a store is
// visible to whoever observes it.
void AtomicPublish(Rng& rng, uint64_t)
{
  const int n = static_cast<int>(rng.Int(1, 60));
  std::vector<int> data(static_cast<size_t>(n), 0);
  ut::CopyableMoveableAtomic<bool> flag(false);
  uint64_t spins = 0;
  std::thread w([&]
  {
    for (int i = 0; i < n; i++) { data[static_cast<size_t>(i)] = i + 1; }
    flag.store(true);
  });
  while (!ut::CopyableMoveableAtomic<bool>(flag).load()) { spins++; std::this_thread::yield(); }
  for (int i = 0; i < n; i++) { VT_EXPECT(data[static_cast<size_t>(i)] == i + 1, "atomic-publication", i); }
  w.join();
  Nontrivial(Combine(static_cast<uint64_t>(n), spins));
  Count("publications");
}

// ------------------------------------------------------------ scope guard
void Guard(Rng& rng, uint64_t)
{
  int depth = static_cast<int>(rng.Int(1, 6));
  std::vector<int> log, want;
  std::vector<bool> disable;
  std::vector<int> leave;  // 0 normal, 1 throw here
  for (int i = 0; i < depth; i++) { disable.push_back(rng.Chance(0.3)); }
  const int throw_at = rng.Chance(0.5) ? static_cast<int>(rng.Int(0, depth - 1)) : -1;
  std::function<void(int)> nest = [&](int i)
  {
    if (i == depth) { return; }
    int local = i * 10;  // the guard must run while captured locals are alive
    ut::OnScopeExit guard([&log, &local] { log.push_back(local); });
    VT_EXPECT(guard.IsEnabled(), "guard-not-enabled", i);
    if (disable[static_cast<size_t>(i)])
    {
      guard.Disable();
      VT_EXPECT(!guard.IsEnabled(), "guard-still-enabled", i);
      if (i % 2) { guard.Disable(); }
    }
    const size_t before = log.size();
    if (i == throw_at) { throw std::runtime_error("leave"); }
    nest(i + 1);
    (void)before;
    VT_EXPECT(std::find(log.begin(), log.end(), local) == log.end(), "guard-ran-early", i);
  };
  const Thrown t = Catch([&] { nest(0); });
  VT_CHECK((t == Thrown::RUNTIME_ERROR) == (throw_at >= 0), "guard-exception-lost", LastWhat());
  const int last = throw_at >= 0 ? throw_at : depth - 1;
  for (int i = last; i >= 0; i--) { if (!disable[static_cast<size_t>(i)]) { want.push_back(i * 10); } }
  VT_CHECK(log == want, "guard-runs", VecStr(log), " expected ", VecStr(want));
  VT_CHECK(Catch([] { ut::OnScopeExit g(std::function<void(void)>{}); }) == Thrown::INVALID_ARGUMENT,
           "guard-empty-function-accepted", "");
  Nontrivial(Combine(static_cast<uint64_t>(depth * 10 + throw_at + 1), log.size()));
  Count("scope_guards", static_cast<uint64_t>(last + 1));
}

void Futures(Rng& rng, uint64_t)
{
  std::promise<int> p;
  std::future<int> f = p.get_future();
  VT_CHECK(!ut::IsFutureReady(f), "future-ready-too-early", "");
  const int kind = static_cast<int>(rng.Int(0, 3));
  if (kind == 0) { p.set_value(7); }
  else if (kind == 1) { p.set_exception(std::make_exception_ptr(std::runtime_error("x"))); }
  else if (kind == 2)
  {
    std::atomic<bool> hold(true);
    std::future<int> g = std::async(std::launch::async, [&] { while (hold.load()) { std::this_thread::yield(); } return 3; });
    for (int i = 0; i < 5; i++) { VT_CHECK(!ut::IsFutureReady(g), "future-ready-too-early", "running task"); }
    hold.store(false);
    g.wait();
    VT_CHECK(ut::IsFutureReady(g) && g.get() == 3, "future-not-ready", "finished task");
    p.set_value(7);
  }
  else
  {
    std::promise<void> q;
    std::future<void> g = q.get_future();
    VT_CHECK(!ut::IsFutureReady(g), "future-ready-too-early", "void");
    q.set_value();
    VT_CHECK(ut::IsFutureReady(g), "future-not-ready", "void");
    p.set_value(7);
  }
  VT_CHECK(ut::IsFutureReady(f), "future-not-ready", "after set");
  VT_CHECK(ut::IsFutureReady(f), "future-polling-consumed-it", "");
  VT_CHECK(f.valid(), "future-invalidated", "");
  if (kind == 1) { VT_CHECK(Catch([&] { f.get(); }) == Thrown::RUNTIME_ERROR, "future-exception", ""); }
  else { VT_CHECK(f.get() == 7, "future-value", ""); }
  Nontrivial(static_cast<uint64_t>(kind));
}

// ------------------------------------------------------------ collections
template<typename T>
T Item(Rng& rng, int spread);
template<>
int Item<int>(Rng& rng, int spread) { return static_cast<int>(rng.Int(-spread, spread)); }
template<>
std::string Item<std::string>(Rng& rng, int spread)
{
  return std::string(static_cast<size_t>(rng.Int(0, 2)), 'a') + static_cast<char>('a' + rng.Int(0, spread));
}

template<typename T, typename C1, typename C2>
void Collections(Rng& rng, uint64_t)
{
  const int spread = static_cast<int>(vt::Large() ? rng.Int(6, 25) : rng.Int(1, 6));
  std::vector<T> a, b;
  const size_t n = vt::Large() ? rng.Size(100, 1500) : rng.Size(0, 12);
  for (size_t i = 0; i < n; i++) { a.push_back(Item<T>(rng, spread)); }
  const int kind = static_cast<int>(rng.Int(0, 4));
  if (kind == 0) { for (size_t i = rng.Size(0, 12); i > 0; i--) { b.push_back(Item<T>(rng, spread)); } }
  else
  {
    b = a;
    rng.Shuffle(b);
    if (kind == 2 && !b.empty()) { b.pop_back(); }
    if (kind == 3 && !b.empty()) { b[0] = Item<T>(rng, spread); }
    if (kind == 4) { b.push_back(a.empty() ? Item<T>(rng, spread) : rng.Pick(a)); }
  }
  if (vt::Large() && rng.Chance(0.5))
  {
    // Many copies of few items, around the limits of small counters.
    a.clear();
    b.clear();
    const std::vector<size_t> counts{0, 1, 127, 128, 255, 256, 257, 511, 512, 1000, 32768, 65535, 65536, 65537};
    for (int64_t items = rng.Int(1, 3); items > 0; items--)
    {
      const T item = Item<T>(rng, spread);
      const size_t in_a = rng.Pick(counts);
      const size_t in_b = rng.Chance(0.5) ? rng.Pick(counts) : in_a + rng.Size(0, 1);
      a.insert(a.end(), in_a, item);
      b.insert(b.end(), in_b, item);
    }
    rng.Shuffle(a);
    if (rng.Chance(0.3)) { std::swap(a, b); }
    Count("many_copies");
  }
  std::vector<T> sa = a, sb = b;
  std::sort(sa.begin(), sa.end());
  std::sort(sb.begin(), sb.end());
  const C1 c1(a.begin(), a.end());
  const C2 c2(b.begin(), b.end());
  const bool subset = std::includes(sa.begin(), sa.end(), sb.begin(), sb.end());
  const bool got_subset = ut::IsSubset<T, C1, C2>(c1, c2);
  VT_CHECK(got_subset == subset, "is-subset", a.size() + b.size() > 100 ? Str(a.size(), " and ", b.size(), " items") : Str(VecStr(a), " ", VecStr(b)), " -> ", got_subset);
  const bool got_equal = ut::CollectionsEqual<T, C1, C2>(c1, c2);
  VT_CHECK(got_equal == (sa == sb), "collections-equal", a.size() + b.size() > 100 ? Str(a.size(), " and ", b.size(), " items") : Str(VecStr(a), " ", VecStr(b)), " -> ", got_equal);
  Count(subset ? "subsets" : "non_subsets");
  Count(sa == sb ? "equal_collections" : "unequal_collections");
  uint64_t h = Combine(Combine(n, static_cast<uint64_t>(kind)), Combine(a.size(), b.size()));
  for (const auto& x : a) { h = Combine(h, std::hash<T>()(x)); }
  for (const auto& x : b) { h = Combine(h, std::hash<T>()(x)); }
  Nontrivial(h);
}

template<typename Map>
void Maps(Rng& rng, uint64_t)
{
  std::map<int, std::string> model;
  Map m;
  std::vector<int> keys;
  std::vector<std::string> values;
  std::vector<std::pair<int, std::string>> pairs;
  const size_t n = vt::Large() ? rng.Size(100, 1000) : rng.Size(0, 20);
  for (size_t i = 0; i < n; i++)
  {
    const int k = static_cast<int>(vt::Large() ? rng.Int(-500, 500) : rng.Int(-8, 8));
    const std::string v = Str("v", i);
    keys.push_back(k);
    values.push_back(v);
    pairs.emplace_back(k, v);
    model[k] = v;
    m[k] = v;
  }
  const auto same = [&](const Map& x)
  { return std::map<int, std::string>(x.begin(), x.end()) == model; };
  VT_CHECK(same((ut::MakeFromKeysAndValues<int, std::string, Map>(keys, values))), "map-from-keys-and-values", n);
  VT_CHECK(same((ut::MakeFromKeysAndValues<int, std::string, Map>(pairs))), "map-from-pairs", n);
  if (rng.Chance(0.5)) { values.push_back("extra"); }
  else if (!values.empty()) { values.pop_back(); }
  if (keys.size() != values.size())
  {
    VT_CHECK(Catch([&] { ut::MakeFromKeysAndValues<int, std::string, Map>(keys, values); }) ==
                 Thrown::INVALID_ARGUMENT, "map-size-mismatch-accepted", keys.size(), " ", values.size());
  }
  const std::vector<int> got_keys = ut::GetKeysFromMapLike<int, std::string, Map>(m);
  std::vector<int> sorted = got_keys, want;
  for (const auto& kv : model) { want.push_back(kv.first); }
  std::sort(sorted.begin(), sorted.end());
  VT_CHECK(sorted == want, "keys-from-map", VecStr(got_keys));
  const auto kv = ut::GetKeysAndValues<int, std::string, Map>(m);
  VT_CHECK(kv.size() == model.size() &&
               (std::map<int, std::string>(kv.begin(), kv.end()) == model), "keys-and-values", kv.size());
  const std::set<int> s(want.begin(), want.end());
  VT_CHECK((ut::GetKeysFromSetLike<int, std::set<int>>(s)) == want, "keys-from-set", "");
  for (int k = -9; k <= 9; k++)
  {
    const auto it = model.find(k);
    const std::string got = ut::RetrieveOrDefault<int, std::string, Map>(m, k, "default");
    VT_CHECK(got == (it == model.end() ? "default" : it->second), "retrieve-or-default", k, " ", got);
  }
  VT_CHECK(same(m), "map-query-changed-map", n);
  Count("maps");
  uint64_t h = n;
  for (const auto k : keys) { h = Combine(h, static_cast<uint64_t>(k + 100)); }
  Nontrivial(h);
}

template<typename T>
void Scalars(Rng& rng, uint64_t)
{
  const auto draw = [&]() -> T
  {
    if (rng.Chance(0.1)) { return std::numeric_limits<T>::max(); }
    if (rng.Chance(0.1)) { return std::numeric_limits<T>::lowest(); }
    return static_cast<T>(rng.Int(0, 12)) - static_cast<T>(std::is_signed<T>::value ? 6 : 0);
  };
  const T v = draw(), lo = draw(), mid = draw(), hi = draw();
  int logs = 0;
  const ut::LoggingFunction log = [&](const std::string&) { logs++; };
  if (lo <= hi)
  {
    const T got = ut::ClampValue<T>(v, lo, hi);
    VT_CHECK(got == std::min(std::max(v, lo), hi), "clamp", +v, " ", +lo, " ", +hi, " -> ", +got);
    logs = 0;
    VT_CHECK(ut::ClampValueAndLog<T>(v, lo, hi, log) == got && logs == (got != v ? 1 : 0), "clamp-log", logs);
  }
  else
  {
    VT_CHECK(Catch([&] { ut::ClampValue<T>(v, lo, hi); }) == Thrown::INVALID_ARGUMENT, "clamp-inverted-accepted", +lo, " ", +hi);
  }
  if (lo <= mid && mid <= hi)
  {
    const T got = ut::SpreadValue<T>(v, lo, mid, hi);
    // Values outside the open band stay; values inside move to the nearer-side threshold.
    const T want = (v <= lo || v >= hi) ? ((v == lo && v >= mid && v < hi) ? hi : v) : (v < mid ? lo : hi);
    VT_CHECK(got == want, "spread", +v, " in ", +lo, " ", +mid, " ", +hi, " -> ", +got, " expected ", +want);
    logs = 0;
    VT_CHECK(ut::SpreadValueAndLog<T>(v, lo, mid, hi, log) == got, "spread-log", "");
    VT_CHECK((got == v) || logs == 1, "spread-log", logs);
  }
  else
  {
    VT_CHECK(Catch([&] { ut::SpreadValue<T>(v, lo, mid, hi); }) == Thrown::INVALID_ARGUMENT,
             "spread-invalid-accepted", +lo, " ", +mid, " ", +hi);
  }
  Count("scalars");
  Nontrivial(Combine(static_cast<uint64_t>(static_cast<int64_t>(std::min<double>(std::max<double>(static_cast<double>(v), -1e9), 1e9))),
                     Combine(static_cast<uint64_t>(static_cast<int64_t>(std::min<double>(std::max<double>(static_cast<double>(lo), -1e9), 1e9))),
                             static_cast<uint64_t>(static_cast<int64_t>(std::min<double>(std::max<double>(static_cast<double>(hi), -1e9), 1e9))))));
}

template<typename T>
void Bits(Rng& rng, uint64_t)
{
  T cur = static_cast<T>(rng.Next());
  if (rng.Chance(0.2)) { cur = rng.Chance(0.5) ? T(0) : std::numeric_limits<T>::max(); }
  constexpr uint32_t kBits = sizeof(T) * 8;
  for (int k = 0; k < 12; k++)
  {
    const uint32_t pos = static_cast<uint32_t>(rng.Int(0, kBits - 1));
    const bool on = rng.Chance(0.5);
    const T next = ut::SetBit<T>(cur, pos, on);
    for (uint32_t b = 0; b < kBits; b++)
    {
      const bool want = b == pos ? on : ((static_cast<uint64_t>(cur) >> b) & 1u);
      VT_CHECK(ut::GetBit<T>(next, b) == want, "bit", "bit ", b, " after setting ", pos, " to ", on, " in ", +cur);
      VT_CHECK(((static_cast<uint64_t>(next) >> b) & 1u) == want, "bit", b);
    }
    cur = next;
    Count("bit_operations");
  }
  Nontrivial(static_cast<uint64_t>(cur));
}

void Hashes(Rng& rng, uint64_t)
{
  HashMe x;
  x.a = static_cast<int>(rng.Int(-100, 100));
  x.s = std::string(static_cast<size_t>(rng.Int(0, 20)), static_cast<char>('a' + rng.Int(0, 25)));
  x.b = rng.Chance(0.5);
  HashMe same = x;
  VT_CHECK(std::hash<HashMe>()(x) == std::hash<HashMe>()(same), "hash-not-deterministic", x.a);
  // Order and every component matter (collisions would be astronomically rare).
  HashMe other = x;
  const int which = static_cast<int>(rng.Int(0, 2));
  if (which == 0) { other.a += 1; }
  else if (which == 1) { other.s += "q"; }
  else { other.b = !other.b; }
  VT_CHECK(std::hash<HashMe>()(other) != std::hash<HashMe>()(x), "hash-ignores-component", which);
  size_t s1 = 0, s2 = 0;
  ut::hash_combine(s1, x.a, x.a + 1);
  ut::hash_combine(s2, x.a + 1, x.a);
  VT_CHECK(s1 != s2, "hash-ignores-order", x.a);
  size_t s3 = 0;
  ut::hash_combine(s3, x.a);
  ut::hash_combine(s3, x.a + 1);
  VT_CHECK(s1 == s3, "hash-combine-not-incremental", x.a);
  Nontrivial(s1);
}

void Substring(Rng& rng, uint64_t)
{
  std::vector<std::string> v;
  const std::string needle(static_cast<size_t>(rng.Int(0, 3)), 'n');
  bool all = true;
  for (size_t i = rng.Size(0, 5); i > 0; i--)
  {
    std::string s;
    for (int k = static_cast<int>(rng.Int(0, 8)); k > 0; k--) { s += rng.Chance(0.7) ? 'n' : 'x'; }
    bool has = false;
    for (size_t p = 0; p + needle.size() <= s.size() && !has; p++) { has = s.compare(p, needle.size(), needle) == 0; }
    all = all && has;
    v.push_back(s);
  }
  VT_CHECK(ut::CheckAllStringsForSubstring(v, needle) == all, "substring", VecStr(v), " ", needle);
  Nontrivial(HashStr(VecStr(v) + needle));
}

void Alignment(Rng& rng, uint64_t)
{
  alignas(64) char buf[256];
  const size_t off = rng.Size(0, 191);
  const uint64_t want = uint64_t(1) << rng.Int(0, 6);
  const bool aligned = (off % want) == 0;
  int logs = 0;
  VT_CHECK(ut::CheckAlignment(buf[off], want) == aligned, "check-alignment", off, " ", want);
  VT_CHECK(ut::CheckAlignment(buf[off], want, [&](const std::string&) { logs++; }) == aligned && logs == 1,
           "check-alignment", off, " ", want);
  VT_CHECK((Catch([&] { ut::RequireAlignment(buf[off], want); }) == Thrown::NONE) == aligned,
           "require-alignment", off, " ", want);
  Nontrivial(Combine(off, want));
}

// ------------------------------------------------------------ OpenMP settings
int Ambient()
{
#ifdef _OPENMP
  return omp_get_max_threads();
#else
  return 1;
#endif
}

int TeamSize()
{
  int n = 0;
#ifdef _OPENMP
#pragma omp parallel
  {
#pragma omp atomic
    n++;
  }
  return n;
#else
  return n + 1;
#endif
}

void OmpScopes(Rng& rng, uint64_t)
{
#ifdef _OPENMP
  static const int initial = omp_get_max_threads();
  const int ambient = rng.Chance(0.5) ? initial : static_cast<int>(rng.Int(1, 12));
  omp_set_num_threads(ambient);
  omp_set_dynamic(rng.Chance(0.3) ? 1 : 0);
#else
  const int ambient = 1;
#endif
  const int limit = omph::GetOmpThreadLimit();
  std::vector<int> used;
  const std::function<void(int)> nest = [&](int depth)
  {
    const int before = Ambient();
    {
      const int mode = static_cast<int>(rng.Int(0, 4));
      int want = 0;
      const auto inside = [&]
      {
        if (omph::IsOmpEnabledInBuild())
        {
          VT_CHECK(Ambient() == want, "scope-not-applied", Ambient(), " expected ", want);
          const int team = TeamSize();
          VT_CHECK(team <= want && team <= limit && team >= 1, "scope-team-size", team, " with ", want);
          VT_CHECK(want > 1 || team == 1, "scope-team-size", team, " with ", want);
        }
        used.push_back(want);
        if (depth < 3 && rng.Chance(0.6)) { nest(depth + 1); }
#ifdef _OPENMP
        // Other code may change the setting within the scope.
        if (rng.Chance(0.3))
        {
          omp_set_num_threads(static_cast<int>(rng.Int(1, 12)));
          Count("foreign_changes");
        }
#endif
        if (rng.Chance(0.3)) { throw std::runtime_error("leave scope"); }
      };
      const Thrown t = Catch([&]
      {
        if (mode == 0) { want = 1; omph::DisableOmpWrapper w; inside(); }
        else if (mode <= 2)
        {
          want = static_cast<int>(rng.Int(1, 12));
          omph::ChangeOmpNumThreadsWrapper w(want);
          inside();
        }
        else
        {
          const int bad = static_cast<int>(rng.Int(-3, 0));
          VT_CHECK(Catch([&] { omph::ChangeOmpNumThreadsWrapper w(bad); }) == Thrown::INVALID_ARGUMENT,
                   "bad-thread-count-accepted", bad);
        }
      });
      VT_CHECK(t == Thrown::NONE || t == Thrown::RUNTIME_ERROR, "scope-exception", LastWhat());
    }
    VT_CHECK(Ambient() == before, "scope-not-restored", "thread setting ", Ambient(), " after the scope, ",
             before, " before it");
    Count("scopes");
  };
  nest(0);
  VT_CHECK(Ambient() == ambient, "scope-not-restored", Ambient(), " ", ambient);
  // Queries.
  if (omph::IsOmpEnabledInBuild())
  {
    VT_CHECK(omph::GetContextMaxNumOmpThreads() == Ambient(), "max-threads-query", "");
    VT_CHECK(!omph::IsOmpInParallel() && omph::GetContextOmpThreadNum() == 0 &&
                 omph::GetContextNumOmpThreads() == 1, "serial-context-queries", "");
    VT_CHECK(omph::GetNumOmpThreads() >= 1 && omph::GetNumOmpThreads() <= std::min(Ambient(), limit),
             "num-threads-query", omph::GetNumOmpThreads());
    VT_CHECK(cru::parallelism::DegreeOfParallelism::FromOmp().GetNumThreads() >= 1 &&
                 cru::parallelism::DegreeOfParallelism::FromOmp().GetNumThreads() <= Ambient(),
             "parallelism-from-omp", "");
#ifdef _OPENMP
    std::atomic<int> wrong(0), entered(0), refused(0);
    const int team_before = Ambient();
#pragma omp parallel
    {
      entered.fetch_add(1);
      const bool parallel = omp_get_num_threads() > 1;
      if (omph::IsOmpInParallel() != parallel || omph::GetContextOmpThreadNum() != omp_get_thread_num() ||
          omph::GetContextNumOmpThreads() != omp_get_num_threads()) { wrong.fetch_add(1); }
      if (parallel)
      {
        try { omph::ChangeOmpNumThreadsWrapper w(2); wrong.fetch_add(1); }
        catch (const std::runtime_error&) { refused.fetch_add(1); }
        try { omph::DisableOmpWrapper w; wrong.fetch_add(1); }
        catch (const std::runtime_error&) { refused.fetch_add(1); }
      }
    }
    VT_CHECK(wrong.load() == 0, "parallel-context-queries", wrong.load());
    VT_CHECK(Ambient() == team_before, "scope-refused-but-changed", Ambient());
    Count("refused_inside_parallel", static_cast<uint64_t>(refused.load()));
#endif
  }
  else
  {
    VT_CHECK(omph::GetNumOmpThreads() == 1 && omph::GetMaxNumOmpThreads() == 1 &&
                 omph::GetContextNumOmpThreads() == 1 && omph::GetContextMaxNumOmpThreads() == 1 &&
                 omph::GetContextOmpThreadNum() == 0 && !omph::IsOmpInParallel() && limit == 1,
             "no-omp-queries", "");
    VT_CHECK(!cru::parallelism::DegreeOfParallelism::FromOmp().IsParallel(), "parallelism-from-omp", "no OpenMP");
  }
  uint64_t h = static_cast<uint64_t>(ambient);
  for (const int u : used) { h = Combine(h, static_cast<uint64_t>(u)); }
  Nontrivial(h);
}
}  // namespace

int main(int argc, char** argv)
{
  constexpr auto SC = std::memory_order_seq_cst;
  constexpr auto RX = std::memory_order_relaxed;
  (void)SC; (void)RX;
  return vt::Main(argc, argv, {
#if VT_PROP == 25
    {"atomic-int", 1500, 40000, AtomicHistory<int32_t, SC, RX>},
    {"atomic-u64", 500, 10000, AtomicHistory<uint64_t, RX, SC>},
    {"atomic-double", 500, 10000, AtomicHistory<double, SC, RX>},
    {"atomic-bool", 300, 5000, AtomicHistory<bool, SC, RX>},
    {"atomic-concurrent", 60, 1500, AtomicConcurrent<SC>},
    {"atomic-concurrent-relaxed", 60, 1500, AtomicConcurrent<RX>},
    {"atomic-publish", 200, 3000, AtomicPublish},
    {"scope-guard", 1500, 30000, Guard},
    {"future", 200, 2000, Futures},
#elif VT_PROP == 26
    {"collections-int", 8000, 200000, Collections<int, std::vector<int>, std::vector<int>>},
    {"collections-mixed", 3000, 50000, Collections<int, std::multiset<int>, std::deque<int>>},
    {"collections-string", 3000, 50000, Collections<std::string, std::list<std::string>, std::vector<std::string>>},
    {"map", 1500, 30000, Maps<std::map<int, std::string>>},
    {"unordered-map", 1500, 30000, Maps<std::unordered_map<int, std::string>>},
    {"collections-large", 60, 1500, vt::LargeCase<Collections<int, std::vector<int>, std::vector<int>>>},
    {"map-large", 60, 1500, vt::LargeCase<Maps<std::map<int, std::string>>>},
    {"unordered-map-large", 60, 1500, vt::LargeCase<Maps<std::unordered_map<int, std::string>>>},
    {"scalar-int", 8000, 100000, Scalars<int>},
    {"scalar-double", 8000, 100000, Scalars<double>},
    {"scalar-u8", 4000, 50000, Scalars<uint32_t>},
    {"bits-8", 400, 8000, Bits<uint8_t>},
    {"bits-16", 400, 8000, Bits<uint16_t>},
    {"bits-32", 400, 8000, Bits<uint32_t>},
    {"bits-64", 400, 8000, Bits<uint64_t>},
    {"hash", 2000, 50000, Hashes},
    {"substring", 2000, 20000, Substring},
    {"alignment", 1000, 10000, Alignment},
#else
    {"omp-scopes", 600, 10000, OmpScopes},
#endif
  });
}
