// Model-based monitor for OwningMaybe / ReferencingMaybe: every contained
// object's lifetime is tracked by address, histories are checked against a
// simple optional model, and copies/moves are made to throw on demand.
#include "common.hpp"

#include <memory>
#include <new>
#include <optional>

#include <Eigen/Geometry>
#include <common_robotics_utilities/maybe.hpp>

namespace cru = common_robotics_utilities;
using cru::OwningMaybe;
using cru::ReferencingMaybe;
using vt::Rng;

namespace
{
struct Boom : public std::runtime_error
{
  Boom() : std::runtime_error("boom") {}
};

struct Ledger
{
  std::set<const void*> live;
  uint64_t constructed = 0;
  uint64_t destroyed = 0;
  int copy_fuse = -1;  // copies until one throws
  int move_fuse = -1;
  void Reset()
  {
    live.clear();
    constructed = destroyed = 0;
    copy_fuse = move_fuse = -1;
  }
};
Ledger g_ledger;

void Born(const void* p)
{
  g_ledger.constructed++;
  if (!g_ledger.live.insert(p).second)
  {
    vt::Record("constructed-over-live-object", "an object was constructed over a live one");
  }
}
void Died(const void* p)
{
  g_ledger.destroyed++;
  if (g_ledger.live.erase(p) == 0)
  {
    vt::Record("destroyed-dead-object", "an object was destroyed twice or never constructed");
  }
}
void MustLive(const void* p)
{
  if (g_ledger.live.count(p) == 0)
  {
    vt::Record("dead-object-used", "a dead object was copied, moved or read");
  }
}
bool Burn(int& fuse)
{
  if (fuse < 0)
  {
    return false;
  }
  return fuse-- == 0;
}

constexpr int kMoved = -777;

// kMovable: has its own move operations (else copies only).  kAlign: alignment.
template<bool kMovable, size_t kAlign>
class alignas(kAlign) Tracked
{
public:
  explicit Tracked(int v) : v_(v), heap_(std::make_unique<int>(v)) { Born(this); }
  Tracked(const Tracked& o)
  {
    MustLive(&o);
    if (Burn(g_ledger.copy_fuse)) { throw Boom(); }
    v_ = o.v_;
    heap_ = std::make_unique<int>(o.v_);
    Born(this);
  }
  template<bool M = kMovable, typename = typename std::enable_if<M>::type>
  void Dummy() {}
  Tracked& operator=(const Tracked& o)
  {
    MustLive(this);
    MustLive(&o);
    if (Burn(g_ledger.copy_fuse)) { throw Boom(); }
    v_ = o.v_;
    heap_ = std::make_unique<int>(o.v_);
    return *this;
  }
  ~Tracked()
  {
    if (reinterpret_cast<uintptr_t>(this) % kAlign != 0)
    {
      vt::Record("misaligned", "contained object is misaligned");
    }
    Died(this);
  }
  int Get() const
  {
    MustLive(this);
    return (v_ == *heap_) ? v_ : -999;
  }
  void Set(int v)
  {
    MustLive(this);
    v_ = v;
    *heap_ = v;
  }

protected:
  int v_ = 0;
  std::unique_ptr<int> heap_;
};

template<size_t kAlign>
class TrackedMove : public Tracked<true, kAlign>
{
public:
  using Base = Tracked<true, kAlign>;
  explicit TrackedMove(int v) : Base(v) {}
  TrackedMove(const TrackedMove& o) = default;
  TrackedMove& operator=(const TrackedMove& o) = default;
  TrackedMove(TrackedMove&& o) : Base(Check(o))
  {
    this->Set(o.Get());
    o.Set(kMoved);
  }
  TrackedMove& operator=(TrackedMove&& o)
  {
    if (Burn(g_ledger.move_fuse)) { throw Boom(); }
    if (this != &o)
    {
      this->Set(o.Get());
      o.Set(kMoved);
    }
    return *this;
  }

private:
  static int Check(const TrackedMove& o)
  {
    MustLive(&o);
    if (Burn(g_ledger.move_fuse)) { throw Boom(); }
    return 0;
  }
};

// Owning maybe against a model.  T must be constructible from int.
template<typename T, bool kMoves>
void OwningHistory(Rng& rng, bool faults)
{
  g_ledger.Reset();
  uint64_t shape = 0;
  {
    std::vector<OwningMaybe<T>> slots;
    std::vector<std::optional<int>> model;
    const auto check = [&](const char* op)
    {
      VT_CHECK(slots.size() == model.size(), "slot-count", op);
      size_t engaged = 0;
      for (size_t i = 0; i < slots.size(); i++)
      {
        const OwningMaybe<T>& cs = slots[i];
        VT_CHECK(cs.HasValue() == model[i].has_value(), "has-value-wrong", op, " slot ", i,
                 " has value ", cs.HasValue());
        VT_CHECK(static_cast<bool>(cs) == cs.HasValue(), "bool-wrong", op);
        if (cs.HasValue())
        {
          engaged++;
          VT_CHECK(cs.Value().Get() == *model[i], "value-wrong", op, " slot ", i, " holds ",
                   cs.Value().Get(), " expected ", *model[i]);
        }
        else
        {
          VT_CHECK(vt::Catch([&] { (void)cs.Value(); }) == vt::Thrown::RUNTIME_ERROR,
                   "empty-access-const", op);
          VT_CHECK(vt::Catch([&] { (void)slots[i].Value(); }) == vt::Thrown::RUNTIME_ERROR,
                   "empty-access", op);
        }
      }
      VT_CHECK(g_ledger.live.size() == engaged, "live-object-count", op, ": ",
               g_ledger.live.size(), " live objects for ", engaged, " engaged slots");
    };
    slots.reserve(2);
    for (int i = 0; i < 4; i++)
    {
      slots.emplace_back();
      model.emplace_back();
    }
    const int steps = static_cast<int>(rng.Int(5, 40));
    int next = 1;
    for (int s = 0; s < steps; s++)
    {
      const size_t a = rng.Size(0, slots.size() - 1);
      const size_t b = rng.Size(0, slots.size() - 1);
      const int op = static_cast<int>(rng.Int(0, 10));
      const int v = next++;
      shape = vt::Combine(shape, static_cast<uint64_t>(op) * 16 + (a == b ? 1 : 0) +
                                     (model[a] ? 2 : 0) + (model[b] ? 4 : 0));
      const bool arm = faults && rng.Chance(0.4);
      if (arm)
      {
        g_ledger.copy_fuse = static_cast<int>(rng.Int(0, 1));
        g_ledger.move_fuse = static_cast<int>(rng.Int(0, 2));
      }
      bool threw = false;
      try
      {
        switch (op)
        {
          case 0:
          {
            const T t(v);
            slots[a] = OwningMaybe<T>(t);
            model[a] = v;
            break;
          }
          case 1:
            slots[a] = OwningMaybe<T>(T(v));
            model[a] = v;
            break;
          case 2:
            slots[a] = slots[b];
            model[a] = model[b];
            break;
          case 3:
            slots[a] = std::move(slots[b]);
            if (a != b)
            {
              model[a] = model[b];
              if (model[b] && kMoves) { model[b] = kMoved; }
            }
            break;
          case 4:
            slots[a].Reset();
            model[a].reset();
            break;
          case 5:
            if (slots[a]) { slots[a].Value().Set(v); }
            if (model[a]) { model[a] = v; }
            break;
          case 6:
          {
            OwningMaybe<T> c(slots[a]);
            VT_CHECK(c.HasValue() == model[a].has_value(), "copy-ctor-has-value", "");
            if (c)
            {
              VT_CHECK(c.Value().Get() == *model[a], "copy-ctor-value", "");
              c.Value().Set(v);  // must not affect the original
            }
            break;
          }
          case 7:
          {
            OwningMaybe<T> c(std::move(slots[a]));
            VT_CHECK(c.HasValue() == model[a].has_value(), "move-ctor-has-value", "");
            if (c) { VT_CHECK(c.Value().Get() == *model[a], "move-ctor-value", ""); }
            if (model[a] && kMoves) { model[a] = kMoved; }
            break;
          }
          case 8:
            if (slots.size() < 12)
            {
              const OwningMaybe<T>& src = slots[b];
              OwningMaybe<T> c(src);
              const auto m = model[b];
              g_ledger.copy_fuse = g_ledger.move_fuse = -1;
              slots.push_back(std::move(c));
              model.push_back(m);
            }
            break;
          case 9:
          {
            auto heap = std::make_unique<OwningMaybe<T>>(slots[a]);
            slots[b] = *heap;
            model[b] = model[a];
            break;
          }
          default:
            slots[a] = OwningMaybe<T>();
            model[a].reset();
            break;
        }
      }
      catch (const Boom&)
      {
        threw = true;
        vt::Count("throwing_copies_or_moves");
      }
      g_ledger.copy_fuse = g_ledger.move_fuse = -1;
      if (threw)
      {
        // A failed operation may leave the slots involved in any valid state;
        // everything else is untouched.  Re-sync those two with the model.
        for (const size_t k : {a, b})
        {
          if (slots[k].HasValue())
          {
            const int got = slots[k].Value().Get();
            const bool plausible = got == v || got == kMoved || (model[k] && got == *model[k]) ||
                                   (model[a] && got == *model[a]) || (model[b] && got == *model[b]);
            VT_CHECK(plausible, "value-after-throw", "slot holds ", got, " after a throwing op ", op);
            model[k] = got;
          }
          else
          {
            model[k].reset();
          }
        }
      }
      check("after op");
      vt::Count("ops");
    }
    vt::Sample(vt::Str("steps=", steps, " slots=", slots.size(), " faults=", faults,
                       " live=", g_ledger.live.size()));
  }
  VT_CHECK(g_ledger.live.empty(), "leaked-object", g_ledger.live.size(),
           " contained objects never destroyed");
  VT_CHECK(g_ledger.constructed == g_ledger.destroyed, "unbalanced-lifetimes",
           g_ledger.constructed, " constructed, ", g_ledger.destroyed, " destroyed");
  vt::Nontrivial(shape);
}

void Owning(Rng& rng, uint64_t c)
{
  switch (c % 3)
  {
    case 0: OwningHistory<TrackedMove<8>, true>(rng, false); break;
    case 1: OwningHistory<Tracked<false, 16>, false>(rng, false); break;
    default: OwningHistory<TrackedMove<64>, true>(rng, false); break;
  }
}

void OwningFaults(Rng& rng, uint64_t c)
{
  if (c % 2 == 0)
  {
    OwningHistory<TrackedMove<8>, true>(rng, true);
  }
  else
  {
    OwningHistory<Tracked<false, 16>, false>(rng, true);
  }
}

template<typename T>
void Plain(Rng& rng, const std::function<T()>& make)
{
  OwningMaybe<T> a;
  std::optional<T> m;
  std::vector<OwningMaybe<T>, cru::OwningMaybeAllocator<T>> store;
  for (int i = 0; i < 12; i++)
  {
    switch (rng.Int(0, 4))
    {
      case 0: { const T v = make(); a = OwningMaybe<T>(v); m = v; break; }
      case 1: { T v = make(); m = v; a = OwningMaybe<T>(std::move(v)); break; }
      case 2: a.Reset(); m.reset(); break;
      case 3: store.push_back(a); break;
      default:
        if (!store.empty()) { a = store.front(); m = a ? std::optional<T>(a.Value()) : std::nullopt; }
        break;
    }
    VT_CHECK(a.HasValue() == m.has_value(), "plain-has-value", "");
    if (a) { VT_CHECK(a.Value() == *m, "plain-value", ""); }
    if (!store.empty()) { const auto copy = store; VT_CHECK(copy.back().HasValue() == store.back().HasValue(), "plain-copy", ""); }
  }
}

void OwningTypes(Rng& rng, uint64_t c)
{
  const std::function<std::string()> mk_s = [&] { return std::string(rng.Size(0, 60), 'x'); };
  const std::function<Eigen::Vector4d()> mk_v = [&]
  { return Eigen::Vector4d(rng.Unit(), rng.Unit(), rng.Unit(), rng.Unit()); };
  const std::function<std::vector<int>()> mk_i = [&] { return std::vector<int>(rng.Size(0, 9), 3); };
  switch (c % 4)
  {
    case 0: Plain<std::string>(rng, mk_s); break;
    case 1: Plain<Eigen::Vector4d>(rng, mk_v); break;
    case 2: Plain<std::vector<int>>(rng, mk_i); break;
    default:
    {
      // Nested and const contents.
      OwningMaybe<OwningMaybe<std::string>> nested;
      VT_CHECK(!nested, "nested", "engaged by default");
      nested = OwningMaybe<OwningMaybe<std::string>>(OwningMaybe<std::string>());
      VT_CHECK(nested && !nested.Value(), "nested", "inner should be empty");
      const std::string s = mk_s();
      nested.Value() = OwningMaybe<std::string>(s);
      const auto copy = nested;
      nested.Value().Reset();
      VT_CHECK(copy.Value() && copy.Value().Value() == s, "nested", "copy not independent");
      const int k = static_cast<int>(rng.Int(0, 99));
      OwningMaybe<const int> ci(k);
      OwningMaybe<const int> cj;
      cj = ci;
      ci.Reset();
      VT_CHECK(cj && cj.Value() == k && !ci, "const-contents", "");
      break;
    }
  }
  vt::Nontrivial(rng.Next());
}

void Referencing(Rng& rng, uint64_t)
{
  std::vector<int> objects;
  for (int i = 0; i < 5; i++) { objects.push_back(i * 100); }
  std::vector<int> model_values = objects;
  std::vector<ReferencingMaybe<int>> refs(4);
  std::vector<int> target(4, -1);
  uint64_t shape = 0;
  const int steps = static_cast<int>(rng.Int(4, 40));
  for (int s = 0; s < steps; s++)
  {
    const size_t a = rng.Size(0, 3);
    const size_t b = rng.Size(0, 3);
    const size_t o = rng.Size(0, 4);
    const int op = static_cast<int>(rng.Int(0, 6));
    shape = vt::Combine(shape, static_cast<uint64_t>(op) * 4 + a * 64 + b * 256 + o * 1024);
    switch (op)
    {
      case 0: refs[a] = ReferencingMaybe<int>(objects[o]); target[a] = static_cast<int>(o); break;
      case 1: refs[a] = refs[b]; target[a] = target[b]; break;
      case 2:
        refs[a] = std::move(refs[b]);
        target[a] = target[b];
        break;
      case 3: refs[a].Reset(); target[a] = -1; break;
      case 4:
        if (refs[a]) { refs[a].Value() = 1000 + s; model_values[static_cast<size_t>(target[a])] = 1000 + s; }
        break;
      case 5: objects[o] = 5000 + s; model_values[o] = 5000 + s; break;
      default: { ReferencingMaybe<int> c(refs[a]); ReferencingMaybe<int> d(std::move(c));
        VT_CHECK(d.HasValue() == (target[a] >= 0), "ref-ctor", "");
        if (d) { VT_CHECK(&d.Value() == &objects[static_cast<size_t>(target[a])], "ref-ctor-address", ""); }
        break; }
    }
    for (size_t i = 0; i < refs.size(); i++)
    {
      const ReferencingMaybe<int>& cr = refs[i];
      VT_CHECK(cr.HasValue() == (target[i] >= 0) && static_cast<bool>(cr) == cr.HasValue(),
               "ref-has-value", "op ", op);
      if (cr)
      {
        VT_CHECK(&cr.Value() == &objects[static_cast<size_t>(target[i])] &&
                     &refs[i].Value() == &cr.Value(), "ref-address", "op ", op);
      }
      else
      {
        VT_CHECK(vt::Catch([&] { (void)cr.Value(); }) == vt::Thrown::RUNTIME_ERROR &&
                     vt::Catch([&] { (void)refs[i].Value(); }) == vt::Thrown::RUNTIME_ERROR,
                 "ref-empty-access", "op ", op);
      }
    }
    VT_CHECK(objects == model_values, "ref-object-values", "op ", op);
    vt::Count("ref_ops");
  }
  // Types with overloaded operator& and const targets.
  struct Sneaky { int v = 7; Sneaky* operator&() { return nullptr; } };
  Sneaky sn;
  ReferencingMaybe<Sneaky> rs(sn);
  VT_CHECK(rs && rs.Value().v == 7, "ref-addressof", "");
  const std::string cs = "const";
  ReferencingMaybe<const std::string> rc(cs);
  VT_CHECK(rc && std::addressof(rc.Value()) == std::addressof(cs), "ref-const", "");
  vt::Nontrivial(shape);
}
}  // namespace

int main(int argc, char** argv)
{
  return vt::Main(argc, argv, {{"owning", 3000, 60000, Owning},
                               {"owning_faults", 2000, 40000, OwningFaults},
                               {"owning_types", 400, 4000, OwningTypes},
                               {"referencing", 1500, 30000, Referencing}});
}
