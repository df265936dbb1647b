// Monitors for the parallel-for loops: P01 coverage, P02 thread numbers and
// completion, P03 exceptions, P04 static partition.  Select with -DVT_PROP.
#include "common.hpp"

#include <array>
#include <chrono>
#include <memory>
#include <thread>

#if defined(_OPENMP)
#include <omp.h>
#endif

#include <common_robotics_utilities/parallelism.hpp>

#if defined(VT_OMP_SHIM)
extern "C" void vt_omp_configure(int, int, int, int, uint64_t);
#endif

namespace par = common_robotics_utilities::parallelism;
using par::DegreeOfParallelism;
using par::ParallelForBackend;
using par::ThreadWorkRange;
using vt::Rng;

namespace
{
struct Config
{
  bool dynamic = false;
  bool ranged = false;
  ParallelForBackend backend = ParallelForBackend::BEST_AVAILABLE;
  int64_t start = 0;
  int64_t size = 0;
  int32_t threads = 1;
  int jitter = 0;

  std::string Describe() const
  {
    return vt::Str(dynamic ? "dynamic" : "static", ranged ? "-range" : "-index",
                   " backend=", static_cast<int>(backend), " [", start, ",", start + size,
                   ") threads=", threads, " jitter=", jitter);
  }
  uint64_t Shape() const
  {
    uint64_t h = vt::Combine(dynamic, ranged);
    h = vt::Combine(h, static_cast<uint64_t>(backend));
    h = vt::Combine(h, static_cast<uint64_t>(start));
    h = vt::Combine(h, static_cast<uint64_t>(size));
    return vt::Combine(h, static_cast<uint64_t>(threads));
  }
};

Config MakeConfig(Rng& rng, int64_t max_size, bool nonempty = false)
{
  Config c;
  c.dynamic = rng.Chance(0.5);
  c.ranged = rng.Chance(0.5);
  c.backend = static_cast<ParallelForBackend>(rng.Int(0, 2));
  const int64_t lo = nonempty ? 1 : 0;
  switch (rng.Int(0, 5))
  {
    case 0: c.size = rng.Int(lo, 3); break;
    case 1: c.size = rng.Int(lo, 12); break;
    default: c.size = rng.Int(lo, max_size); break;
  }
  switch (rng.Int(0, 7))
  {
    case 0: c.start = 0; break;
    case 1: c.start = rng.Int(1, 40); break;
    case 2: c.start = -rng.Int(1, 40); break;
    case 3: c.start = -c.size; break;
    case 4: c.start = rng.Int(-1000000, 1000000); break;
    case 5: c.start = std::numeric_limits<int64_t>::max() - c.size - rng.Int(0, 3); break;
    case 6: c.start = std::numeric_limits<int64_t>::min() + rng.Int(0, 3); break;
    default: c.start = (int64_t{1} << rng.Int(31, 40)) - rng.Int(0, 8); break;
  }
  switch (rng.Int(0, 4))
  {
    case 0: c.threads = static_cast<int32_t>(rng.Int(1, 2)); break;
    case 1:
      c.threads = static_cast<int32_t>(
          std::max<int64_t>(1, std::min<int64_t>(24, c.size + rng.Int(-1, 1))));
      break;
    case 2: c.threads = static_cast<int32_t>(rng.Int(2, 24)); break;
    default: c.threads = static_cast<int32_t>(rng.Int(2, 8)); break;
  }
  c.jitter = static_cast<int>(rng.Int(0, 2));
  return c;
}

void Jitter(int mode, uint64_t salt)
{
  if (mode == 0)
  {
    return;
  }
  const uint64_t r = vt::Mix(salt) % 32;
  if (r < 6)
  {
    std::this_thread::yield();
  }
  else if (r == 6 && mode == 2)
  {
    std::this_thread::sleep_for(std::chrono::microseconds(vt::Mix(salt + 1) % 150));
  }
}

// Runs the loop under test.  body(thread_num, first, last) sees one call of the
// user's functor (index loops: last == first + 1).
template<typename Body>
void RunLoop(const Config& c, const Body& body)
{
  const DegreeOfParallelism degree(c.threads);
  if (c.ranged)
  {
    const auto fn = [&](const ThreadWorkRange& r)
    { body(r.GetThreadNum(), r.GetRangeStart(), r.GetRangeEnd()); };
    if (c.dynamic)
    {
      par::DynamicParallelForRangeLoop(degree, c.start, c.start + c.size, fn, c.backend);
    }
    else
    {
      par::StaticParallelForRangeLoop(degree, c.start, c.start + c.size, fn, c.backend);
    }
  }
  else
  {
    const auto fn = [&](const int32_t t, const int64_t i) { body(t, i, i + 1); };
    if (c.dynamic)
    {
      par::DynamicParallelForIndexLoop(degree, c.start, c.start + c.size, fn, c.backend);
    }
    else
    {
      par::StaticParallelForIndexLoop(degree, c.start, c.start + c.size, fn, c.backend);
    }
  }
}

void Environment(Rng& rng)
{
#if defined(VT_OMP_SHIM)
  vt_omp_configure(1, static_cast<int>(rng.Int(0, 1)),
                   rng.Chance(0.3) ? static_cast<int>(rng.Int(1, 4)) : 0,
                   static_cast<int>(rng.Int(1, 3)), rng.Next());
#elif defined(_OPENMP)
  omp_set_dynamic(rng.Chance(0.2) ? 1 : 0);
  omp_set_max_active_levels(static_cast<int>(rng.Int(1, 3)));
  omp_set_num_threads(static_cast<int>(rng.Int(1, 8)));
#else
  (void)rng;
#endif
}

// ---------------------------------------------------------------- P01 ------
// Counts how often every index of the range is handed out; indices outside
// the range are collected separately.
class CoverageMonitor
{
public:
  explicit CoverageMonitor(const Config& c)
      : c_(c), hits_(static_cast<size_t>(c.size)), plain_(static_cast<size_t>(c.size), 0)
  {
    for (auto& h : hits_)
    {
      h.store(0, std::memory_order_relaxed);
    }
  }
  void Saw(int64_t first, int64_t last)
  {
    calls_.fetch_add(1, std::memory_order_relaxed);
    if (last < first || last - first > c_.size)
    {
      bad_.fetch_add(1, std::memory_order_relaxed);
      return;
    }
    for (int64_t i = first; i < last; i++)
    {
      if (i < c_.start || i >= c_.start + c_.size)
      {
        bad_.fetch_add(1, std::memory_order_relaxed);
        a_bad_.store(i, std::memory_order_relaxed);
        continue;
      }
      const auto k = static_cast<size_t>(i - c_.start);
      hits_[k].fetch_add(1, std::memory_order_relaxed);
      plain_[k] = i;  // unsynchronised on purpose: one owner per index
    }
  }
  void Judge()
  {
    VT_CHECK(bad_.load() == 0, "index-outside-range", c_.Describe(), " ", bad_.load(),
             " indices outside the range, e.g. ", a_bad_.load());
    for (size_t k = 0; k < hits_.size(); k++)
    {
      VT_CHECK(hits_[k].load(std::memory_order_relaxed) == 1,
               hits_[k].load() == 0 ? "index-missed" : "index-repeated", c_.Describe(),
               " index ", c_.start + static_cast<int64_t>(k), " visited ", hits_[k].load(),
               " times");
      VT_CHECK(plain_[k] == c_.start + static_cast<int64_t>(k), "write-not-visible",
               c_.Describe(), " work done for an index is not visible after the loop");
    }
    vt::Count("indices", hits_.size());
    vt::Count("functor_calls", calls_.load());
  }

private:
  Config c_;
  std::vector<std::atomic<int>> hits_;
  std::vector<int64_t> plain_;
  std::atomic<int64_t> bad_{0};
  std::atomic<int64_t> a_bad_{0};
  std::atomic<uint64_t> calls_{0};
};

void Coverage(Rng& rng, uint64_t)
{
  Environment(rng);
  const Config c = MakeConfig(rng, 300);
  const uint64_t salt = rng.Next();
  CoverageMonitor mon(c);
  RunLoop(c, [&](int32_t, int64_t a, int64_t b)
  {
    Jitter(c.jitter, salt + static_cast<uint64_t>(a));
    mon.Saw(a, b);
  });
  mon.Judge();
  if (c.size > 1)
  {
    vt::Nontrivial(c.Shape());
    vt::Sample(c.Describe());
  }
}

// Loops started from inside loops, and from several threads at once.
void NestedCoverage(Rng& rng, uint64_t)
{
  Environment(rng);
  Config outer = MakeConfig(rng, 6, true);
  std::vector<Config> inner;
  std::vector<std::unique_ptr<CoverageMonitor>> mons;
  for (int64_t i = 0; i < outer.size; i++)
  {
    inner.push_back(MakeConfig(rng, 12));
    inner.back().threads = std::min(inner.back().threads, 4);
    mons.push_back(std::make_unique<CoverageMonitor>(inner.back()));
  }
  CoverageMonitor outer_mon(outer);
  RunLoop(outer, [&](int32_t, int64_t a, int64_t b)
  {
    outer_mon.Saw(a, b);
    for (int64_t i = a; i < b; i++)
    {
      if (i < outer.start || i >= outer.start + outer.size)
      {
        continue;
      }
      const auto k = static_cast<size_t>(i - outer.start);
      {
        RunLoop(inner[k], [&](int32_t, int64_t x, int64_t y) { mons[k]->Saw(x, y); });
      }
    }
  });
  outer_mon.Judge();
  for (auto& m : mons)
  {
    m->Judge();
  }
  vt::Count("nested_loops", inner.size());
  vt::Nontrivial(vt::Combine(outer.Shape(), inner.front().Shape()));
}

void ConcurrentCallers(Rng& rng, uint64_t)
{
  Environment(rng);
  const size_t n = rng.Size(2, 4);
  std::vector<Config> cs;
  std::vector<std::unique_ptr<CoverageMonitor>> mons;
  uint64_t h = 0;
  for (size_t i = 0; i < n; i++)
  {
    cs.push_back(MakeConfig(rng, 40));
    cs.back().threads = std::min(cs.back().threads, 4);
    h = vt::Combine(h, cs.back().Shape());
    mons.push_back(std::make_unique<CoverageMonitor>(cs.back()));
  }
  std::vector<std::thread> callers;
  for (size_t i = 0; i < n; i++)
  {
    callers.emplace_back([&, i]
    {
      RunLoop(cs[i], [&](int32_t, int64_t a, int64_t b) { mons[i]->Saw(a, b); });
    });
  }
  for (auto& t : callers)
  {
    t.join();
  }
  for (auto& m : mons)
  {
    m->Judge();
  }
  vt::Nontrivial(h);
}

// Ranges far too large to visit index by index: the ranges a static range loop
// (or a serial dynamic one) hands out must still tile the whole range.
void HugeRanges(Rng& rng, uint64_t)
{
  Environment(rng);
  Config c;
  c.ranged = true;
  c.dynamic = rng.Chance(0.1);
  c.backend = static_cast<ParallelForBackend>(rng.Int(0, 2));
  c.threads = c.dynamic ? 1 : static_cast<int32_t>(rng.Int(1, 16));
  const int bits = static_cast<int>(rng.Int(10, 62));
  c.size = (int64_t{1} << bits) + rng.Int(-20, 20);
  if (rng.Chance(0.3))
  {
    c.size -= rng.Int(0, c.size / 2);
  }
  switch (rng.Int(0, 4))
  {
    case 0: c.start = 0; break;
    case 1: c.start = -c.size / 2; break;
    case 2: c.start = std::numeric_limits<int64_t>::max() - c.size - rng.Int(0, 3); break;
    case 3: c.start = std::numeric_limits<int64_t>::min() + rng.Int(0, 3); break;
    default: c.start = rng.Int(-1000000, 1000000); break;
  }
  std::mutex m;
  std::vector<std::pair<int64_t, int64_t>> got;
  std::vector<int32_t> numbers;
  RunLoop(c, [&](int32_t t, int64_t a, int64_t b)
  {
    std::lock_guard<std::mutex> lock(m);
    got.emplace_back(a, b);
    numbers.push_back(t);
  });
  std::sort(got.begin(), got.end());
  int64_t prev = c.start;
  for (const auto& r : got)
  {
    VT_CHECK(r.first >= prev, "index-repeated", c.Describe(), " range from ", r.first,
             " overlaps one ending at ", prev);
    VT_CHECK(r.first == prev, "index-missed", c.Describe(), " range from ", r.first,
             " follows one ending at ", prev);
    prev = r.second;
  }
  VT_CHECK(prev == c.start + c.size, "range-end-not-reached", c.Describe(), " last ", prev);
  for (const int32_t t : numbers)
  {
    VT_CHECK(t >= 0 && t < c.threads, "thread-number-outside", c.Describe(), " number ", t);
  }
  if (c.size > (int64_t{1} << 31))
  {
    vt::Count("ranges_beyond_int32");
  }
  vt::Nontrivial(c.Shape());
}

void BadRange(Rng& rng, uint64_t)
{
  Config c = MakeConfig(rng, 50, true);
  std::atomic<int> calls{0};
  const DegreeOfParallelism degree(c.threads);
  const int64_t start = c.start + c.size;
  const int64_t end = c.start;
  const auto fn_r = [&](const ThreadWorkRange&) { calls++; };
  const auto fn_i = [&](int32_t, int64_t) { calls++; };
  const auto thrown = vt::Catch([&]
  {
    if (c.ranged && c.dynamic) { par::DynamicParallelForRangeLoop(degree, start, end, fn_r, c.backend); }
    else if (c.ranged) { par::StaticParallelForRangeLoop(degree, start, end, fn_r, c.backend); }
    else if (c.dynamic) { par::DynamicParallelForIndexLoop(degree, start, end, fn_i, c.backend); }
    else { par::StaticParallelForIndexLoop(degree, start, end, fn_i, c.backend); }
  });
  VT_CHECK(thrown == vt::Thrown::RUNTIME_ERROR, "reversed-range-accepted", c.Describe());
  VT_CHECK(calls.load() == 0, "reversed-range-ran", c.Describe());
  vt::Nontrivial(c.Shape());
}

// ---------------------------------------------------------------- P02 ------
void ThreadNumbers(Rng& rng, uint64_t)
{
  Environment(rng);
  const Config c = MakeConfig(rng, 120, true);
  const uint64_t salt = rng.Next();
  const auto n = static_cast<size_t>(c.threads);
  std::vector<std::atomic<int>> busy(n);
  std::vector<std::array<int64_t, 8>> scratch(n);  // unsynchronised per-thread state
  for (size_t i = 0; i < n; i++)
  {
    busy[i].store(0);
    scratch[i].fill(0);
  }
  std::atomic<int> live{0};
  std::atomic<int> max_live{0};
  std::atomic<int> after{0};
  std::atomic<bool> returned{false};
  std::atomic<int64_t> calls{0};
  std::atomic<uint64_t> interleaving{0};
  RunLoop(c, [&](int32_t t, int64_t a, int64_t b)
  {
    if (returned.load())
    {
      after++;
    }
    const int now = live.fetch_add(1) + 1;
    int seen = max_live.load();
    while (now > seen && !max_live.compare_exchange_weak(seen, now))
    {
    }
    if (now > c.threads)
    {
      vt::Record("too-many-concurrent-calls", vt::Str(c.Describe(), " concurrent=", now));
    }
    if (t < 0 || t >= c.threads)
    {
      vt::Record("thread-number-out-of-range", vt::Str(c.Describe(), " thread number ", t));
      live--;
      return;
    }
    const auto k = static_cast<size_t>(t);
    if (busy[k].fetch_add(1) != 0)
    {
      vt::Record("thread-number-shared",
                 vt::Str(c.Describe(), " thread number ", t, " used by two running calls"));
    }
    scratch[k][0] += b - a;
    Jitter(c.jitter, salt + static_cast<uint64_t>(a) * 3);
    scratch[k][1]++;
    interleaving = vt::Combine(interleaving.load(), static_cast<uint64_t>(t));
    calls++;
    busy[k]--;
    live--;
  });
  returned = true;
  VT_CHECK(live.load() == 0, "call-still-running-after-return", c.Describe());
  int64_t total = 0;
  int64_t total_calls = 0;
  size_t used = 0;
  for (const auto& s : scratch)
  {
    total += s[0];
    total_calls += s[1];
    used += (s[1] > 0) ? 1 : 0;
  }
  VT_CHECK(total == c.size && total_calls == calls.load(), "per-thread-work-lost", c.Describe(),
           " per-thread tallies sum to ", total);
  std::this_thread::yield();
  VT_CHECK(after.load() == 0, "call-started-after-return", c.Describe());
  vt::Count("functor_calls", static_cast<uint64_t>(calls.load()));
  vt::MaxOf("max_concurrent_calls", static_cast<uint64_t>(max_live.load()));
  vt::MaxOf("max_distinct_thread_numbers", used);
  if (max_live.load() > 1)
  {
    vt::Count("cases_with_real_concurrency");
  }
  vt::Nontrivial(vt::Combine(c.Shape(), interleaving.load()));
  vt::Sample(vt::Str(c.Describe(), " max_concurrent=", max_live.load()));
}

// One running loop's thread numbers, watched from inside its calls.
class NumberMonitor
{
public:
  explicit NumberMonitor(const Config& c)
      : c_(c), busy_(static_cast<size_t>(c.threads)), tally_(static_cast<size_t>(c.threads), 0)
  {
    for (auto& b : busy_)
    {
      b.store(0);
    }
  }
  template<typename Work>
  void Run(int32_t t, int64_t a, int64_t b, const char* where, const Work& work)
  {
    if (t < 0 || t >= c_.threads)
    {
      vt::Record("thread-number-out-of-range",
                 vt::Str(where, " ", c_.Describe(), " thread number ", t));
      return;
    }
    const auto k = static_cast<size_t>(t);
    if (busy_[k].fetch_add(1) != 0)
    {
      vt::Record("thread-number-shared",
                 vt::Str(where, " ", c_.Describe(), " thread number ", t, " used twice at once"));
    }
    tally_[k] += b - a;
    work();
    busy_[k]--;
  }
  void Judge(const char* where) const
  {
    int64_t total = 0;
    for (const int64_t n : tally_)
    {
      total += n;
    }
    VT_CHECK(total == c_.size, "per-thread-work-lost", where, " ", c_.Describe(),
             " per-thread tallies sum to ", total);
  }

private:
  Config c_;
  std::vector<std::atomic<int>> busy_;
  std::vector<int64_t> tally_;  // unsynchronised per-thread state
};

// Loops running inside another loop's calls, or inside a caller's own OpenMP
// team: every running loop has its own numbering.
void NestedThreadNumbers(Rng& rng, uint64_t)
{
  Environment(rng);
#if defined(VT_OMP_SHIM)
  vt_omp_configure(1, static_cast<int>(rng.Int(0, 1)), 0, static_cast<int>(rng.Int(1, 3)),
                   rng.Next());
#elif defined(_OPENMP)
  omp_set_dynamic(0);
  omp_set_max_active_levels(static_cast<int>(rng.Int(1, 3)));
#endif
  Config outer = MakeConfig(rng, 6, true);
  outer.threads = std::min(outer.threads, 6);
  std::vector<Config> inner;
  std::vector<std::unique_ptr<NumberMonitor>> mons;
  uint64_t h = outer.Shape();
  for (int64_t i = 0; i < outer.size; i++)
  {
    inner.push_back(MakeConfig(rng, 8, true));
    inner.back().threads = std::min(inner.back().threads, 4);
    mons.push_back(std::make_unique<NumberMonitor>(inner.back()));
    h = vt::Combine(h, inner.back().Shape());
  }
  const uint64_t salt = rng.Next();
  std::atomic<int> live{0};
  std::atomic<int> max_live{0};
  const auto run_inner = [&](size_t k)
  {
    const int now = live.fetch_add(1) + 1;
    int seen = max_live.load();
    while (now > seen && !max_live.compare_exchange_weak(seen, now))
    {
    }
    RunLoop(inner[k], [&](int32_t t, int64_t a, int64_t b)
    {
      mons[k]->Run(t, a, b, "inner", [&] { Jitter(2, salt + k * 77 + static_cast<uint64_t>(a)); });
    });
    live--;
  };
#if defined(_OPENMP) && !defined(VT_OMP_SHIM)
  const bool plain_team = rng.Chance(0.3);
  if (plain_team)
  {
    const int n = static_cast<int>(inner.size());
#pragma omp parallel for num_threads(n) schedule(static)
    for (int i = 0; i < n; i++)
    {
      run_inner(static_cast<size_t>(i));
    }
  }
  else
#endif
  {
    NumberMonitor outer_mon(outer);
    RunLoop(outer, [&](int32_t t, int64_t a, int64_t b)
    {
      outer_mon.Run(t, a, b, "outer", [&]
      {
        for (int64_t i = a; i < b; i++)
        {
          run_inner(static_cast<size_t>(i - outer.start));
        }
      });
    });
    outer_mon.Judge("outer");
  }
  for (const auto& m : mons)
  {
    m->Judge("inner");
  }
  if (max_live.load() > 1)
  {
    vt::Count("cases_with_concurrent_inner_loops");
  }
  vt::Nontrivial(h);
}

void Degree(Rng& rng, uint64_t c)
{
  const int32_t n = (c % 2 == 0) ? static_cast<int32_t>(rng.Int(-3, 5))
                                 : static_cast<int32_t>(rng.Int(-2147483647, 2147483647));
  const auto t = vt::Catch([&]
  {
    const DegreeOfParallelism d(n);
    VT_CHECK(d.GetNumThreads() == n && d.IsParallel() == (n > 1), "degree-wrong", n);
  });
  VT_CHECK((t == vt::Thrown::NONE) == (n >= 1), "degree-validation", n);
  VT_CHECK(n >= 1 || t == vt::Thrown::INVALID_ARGUMENT, "degree-validation", n);
  VT_CHECK(!DegreeOfParallelism::None().IsParallel() && !DegreeOfParallelism().IsParallel(),
           "degree-none", "None() is parallel");
  vt::Nontrivial(static_cast<uint64_t>(n));
}

// ---------------------------------------------------------------- P03 ------
struct Tagged : public std::runtime_error
{
  explicit Tagged(int64_t i) : std::runtime_error("tagged"), index(i) {}
  int64_t index;
};

void Exceptions(Rng& rng, uint64_t)
{
  Environment(rng);
  const Config c = MakeConfig(rng, 80, true);
  const uint64_t salt = rng.Next();
  std::set<int64_t> throwing;
  const int64_t k = rng.Chance(0.2) ? c.size : rng.Int(1, std::min<int64_t>(c.size, 4));
  for (int64_t i = 0; i < k; i++)
  {
    switch (rng.Int(0, 3))
    {
      case 0: throwing.insert(c.start); break;
      case 1: throwing.insert(c.start + c.size - 1); break;
      default: throwing.insert(c.start + rng.Int(0, c.size - 1)); break;
    }
  }
  const int kind = static_cast<int>(rng.Int(0, 2));
  std::vector<std::atomic<int>> hits(static_cast<size_t>(c.size));
  std::vector<std::atomic<int>> threw(static_cast<size_t>(c.size));
  for (size_t i = 0; i < hits.size(); i++)
  {
    hits[i].store(0);
    threw[i].store(0);
  }
  auto live = std::make_shared<std::atomic<int>>(0);
  auto returned = std::make_shared<std::atomic<bool>>(false);
  auto late = std::make_shared<std::atomic<int>>(0);
  int64_t caught = std::numeric_limits<int64_t>::min();
  bool threw_out = false;
  struct Leave
  {
    std::atomic<int>* l;
    ~Leave() { (*l)--; }
  };
  try
  {
    RunLoop(c, [&, live, returned, late](int32_t, int64_t a, int64_t b)
    {
      (*live)++;
      const Leave leave{live.get()};
      if (returned->load())
      {
        (*late)++;
        return;
      }
      for (int64_t i = a; i < b; i++)
      {
        if (i < c.start || i >= c.start + c.size)
        {
          continue;
        }
        const auto pos = static_cast<size_t>(i - c.start);
        hits[pos]++;
        Jitter(c.jitter, salt + static_cast<uint64_t>(i));
        if (throwing.count(i) > 0)
        {
          threw[pos]++;
          if (kind == 0) { throw Tagged(i); }
          if (kind == 1) { throw i; }
          throw std::make_shared<int64_t>(i);
        }
      }
    });
  }
  catch (const Tagged& e)
  {
    caught = e.index;
    threw_out = (kind == 0);
  }
  catch (const int64_t i)
  {
    caught = i;
    threw_out = (kind == 1);
  }
  catch (const std::shared_ptr<int64_t>& p)
  {
    caught = *p;
    threw_out = (kind == 2);
  }
  const int still = live->load();
  *returned = true;
  VT_CHECK(threw_out, "exception-swallowed", c.Describe(), " kind ", kind, " throwing ",
           vt::VecStr(throwing));
  VT_CHECK(still == 0, "call-running-when-exception-left", c.Describe(), " live=", still);
  VT_CHECK(caught >= c.start && caught < c.start + c.size &&
               threw[static_cast<size_t>(caught - c.start)].load() > 0,
           "exception-not-one-thrown", c.Describe(), " caught ", caught);
  for (size_t i = 0; i < hits.size(); i++)
  {
    VT_CHECK(hits[i].load() <= 1, "index-repeated-with-exceptions", c.Describe(), " index ",
             c.start + static_cast<int64_t>(i));
  }
  std::this_thread::yield();
  VT_CHECK(late->load() == 0, "call-started-after-exception", c.Describe());
  // The machinery must be usable again afterwards.
  CoverageMonitor mon(c);
  RunLoop(c, [&](int32_t, int64_t a, int64_t b) { mon.Saw(a, b); });
  mon.Judge();
  vt::Count("exceptions_observed");
  vt::Nontrivial(vt::Combine(c.Shape(), static_cast<uint64_t>(caught)));
  vt::Sample(vt::Str(c.Describe(), " throwing ", vt::VecStr(throwing, 6), " caught ", caught));
}

// ---------------------------------------------------------------- P04 ------
void Partition(Rng& rng, uint64_t)
{
  int64_t size = 0;
  switch (rng.Int(0, 4))
  {
    case 0: size = rng.Int(0, 8); break;
    case 1: size = rng.Int(0, 400); break;
    case 2: size = rng.Int(0, int64_t{1} << 40); break;
    case 3: size = rng.Int(0, int64_t{1} << 62); break;
    default: size = std::numeric_limits<int64_t>::max() - rng.Int(0, 3); break;
  }
  int64_t start = 0;
  switch (rng.Int(0, 4))
  {
    case 0: start = 0; break;
    case 1: start = rng.Int(-50, 50); break;
    case 2: start = std::numeric_limits<int64_t>::min() + rng.Int(0, 2); break;
    case 3: start = std::numeric_limits<int64_t>::max() - size; break;
    default: start = rng.Int(-(int64_t{1} << 40), int64_t{1} << 40); break;
  }
  if (start > std::numeric_limits<int64_t>::max() - size)
  {
    start = std::numeric_limits<int64_t>::max() - size;
  }
  const int64_t end = start + size;
  const int64_t threads =
      rng.Chance(0.1) ? rng.Int(1, 3) : rng.Chance(0.8) ? rng.Int(1, 130)
                      : (rng.Chance(0.5) ? rng.Int(1, 5000) : rng.Int(1, int64_t{1} << 40));
  const std::string where = vt::Str("[", start, ",", end, ") threads=", threads);
  const auto part = [&](int64_t t)
  { return par::CalcStaticThreadRangeStartAndEnd(start, end, threads, t); };
  const int64_t q = size / threads;
  int64_t prev = start;
  const bool all = threads <= 5000;
  const int64_t checks = all ? threads : 300;
  for (int64_t n = 0; n < checks; n++)
  {
    int64_t t = n;
    if (!all)
    {
      t = (n < 100) ? n : (n < 200 ? threads - 1 - (n - 100) : rng.Int(0, threads - 2));
      prev = (t == 0) ? start : part(t - 1).second;
    }
    const auto r = part(t);
    VT_CHECK(r.first == prev, "partition-gap-or-overlap", where, " thread ", t, " starts at ",
             r.first, " not ", prev);
    const int64_t len = r.second - r.first;
    VT_CHECK(r.second >= r.first && (len == q || len == q + 1), "partition-unbalanced", where,
             " thread ", t, " gets ", len, " of ", size);
    prev = r.second;
    if (t == threads - 1)
    {
      VT_CHECK(r.second == end, "partition-end", where, " last range ends at ", r.second);
    }
    vt::Count("ranges");
  }
  vt::Nontrivial(vt::Combine(vt::Combine(static_cast<uint64_t>(start), static_cast<uint64_t>(size)),
                             static_cast<uint64_t>(threads)));
  vt::Sample(where);
  // Invalid arguments.
  if (size > 0)
  {
    VT_CHECK(vt::Catch([&] { par::CalcStaticThreadRangeStartAndEnd(end, start, threads, 0); }) ==
                 vt::Thrown::INVALID_ARGUMENT, "partition-accepts-reversed", where);
  }
  VT_CHECK(vt::Catch([&] { par::CalcStaticThreadRangeStartAndEnd(start, end, threads, threads); }) ==
               vt::Thrown::INVALID_ARGUMENT, "partition-accepts-thread-num", where);
  VT_CHECK(vt::Catch([&] { par::CalcStaticThreadRangeStartAndEnd(start, end, threads, -1); }) ==
               vt::Thrown::INVALID_ARGUMENT, "partition-accepts-thread-num", where);
  VT_CHECK(vt::Catch([&] { par::CalcStaticThreadRangeStartAndEnd(start, end, -rng.Int(0, 9), 0); }) ==
               vt::Thrown::INVALID_ARGUMENT, "partition-accepts-threads", where);
}

// The ranges the static range loop really hands out are this same balanced split.
void StaticLoopBalance(Rng& rng, uint64_t)
{
  Environment(rng);
  Config c = MakeConfig(rng, 200, true);
  c.dynamic = false;
  c.ranged = true;
  std::mutex m;
  std::vector<std::pair<int64_t, int64_t>> got;
  RunLoop(c, [&](int32_t, int64_t a, int64_t b)
  {
    std::lock_guard<std::mutex> lock(m);
    got.emplace_back(a, b);
  });
  std::sort(got.begin(), got.end());
  const int64_t pieces = std::min<int64_t>(c.threads, c.size);
  VT_CHECK(static_cast<int64_t>(got.size()) == pieces, "static-loop-pieces", c.Describe(),
           " handed out ", got.size(), " ranges");
  int64_t prev = c.start;
  for (const auto& r : got)
  {
    VT_CHECK(r.first == prev, "static-loop-gap", c.Describe(), " range starts at ", r.first);
    const int64_t len = r.second - r.first;
    VT_CHECK(len >= 1 && (len == c.size / pieces || len == c.size / pieces + 1),
             "static-loop-unbalanced", c.Describe(), " range of ", len);
    prev = r.second;
  }
  VT_CHECK(prev == c.start + c.size, "static-loop-end", c.Describe());
  vt::Nontrivial(c.Shape());
}
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 1
  return vt::Main(argc, argv, {{"coverage", 900, 12000, Coverage},
                               {"huge_ranges", 300, 6000, HugeRanges},
                               {"nested", 150, 2000, NestedCoverage},
                               {"concurrent_callers", 120, 1500, ConcurrentCallers},
                               {"reversed_range", 60, 600, BadRange}});
#elif VT_PROP == 2
  return vt::Main(argc, argv, {{"thread_numbers", 1200, 15000, ThreadNumbers},
                               {"nested_thread_numbers", 250, 4000, NestedThreadNumbers},
                               {"degree", 60, 1000, Degree}});
#elif VT_PROP == 3
  return vt::Main(argc, argv, {{"exceptions", 900, 12000, Exceptions}});
#elif VT_PROP == 4
  return vt::Main(argc, argv, {{"partition", 1500, 30000, Partition},
                               {"static_loop", 300, 4000, StaticLoopBalance}});
#endif
}
