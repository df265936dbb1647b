// A small OpenMP runtime (GNU ABI) made of std::thread, so that the code under
// test can be compiled with -fopenmp and still be watched by ThreadSanitizer
// (libgomp's own synchronisation is invisible to it).  It is deliberately
// unfriendly: it injects delays, may deliver smaller teams than requested (as a
// runtime may under a thread limit or dynamic adjustment), and hands dynamic
// chunks out with relaxed atomics so that no accidental ordering hides a race.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace
{
struct Team
{
  int size = 1;
  // Worksharing loop state (one loop per region, which is all GNU combined
  // parallel loops need; further loops in a region restart it).
  std::atomic<long> next{0};
  long end = 0;
  long incr = 1;
  long chunk = 1;
  std::mutex m;
  std::condition_variable cv;
  int arrived = 0;
  uint64_t generation = 0;
  std::atomic<int> singles{0};
  // Enclosing team and this team's master's number in it.
  Team* parent = nullptr;
  int parent_num = 0;
  int level = 1;
  // unsigned worksharing loop
  unsigned long long u_next = 0, u_end = 0, u_incr = 1, u_chunk = 1;
  bool u_up = true;
  std::mutex u_mutex;
  // sections
  std::atomic<unsigned> section{0};
  unsigned sections = 0;
  void* copyprivate = nullptr;
};

struct Context
{
  Team* team = nullptr;
  int num = 0;
  int level = 0;         // nesting level
  int active_level = 0;  // nesting level counting teams > 1
  int singles_seen = 0;
  uint64_t rng = 0;
};

thread_local Context ctx;
std::atomic<int> nthreads_var{4};
std::atomic<int> thread_limit_var{0x7fffffff};
std::atomic<int> max_active_levels{1};
std::atomic<int> delay_mode{0};
std::atomic<int> shrink_mode{0};
std::atomic<uint64_t> salt{1};
std::mutex critical_mutex;
std::mutex atomic_mutex;

uint64_t Next()
{
  uint64_t& s = ctx.rng;
  if (s == 0)
  {
    s = salt.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed) | 1;
  }
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  return s * 0x2545f4914f6cdd1dull;
}

void Delay()
{
  if (delay_mode.load(std::memory_order_relaxed) == 0)
  {
    return;
  }
  const uint64_t r = (Next() >> 33) % 16;
  if (r < 3)
  {
    std::this_thread::yield();
  }
  else if (r == 3)
  {
    std::this_thread::sleep_for(std::chrono::microseconds((Next() >> 40) % 200));
  }
}

int TeamSize(unsigned requested)
{
  int n = requested > 0 ? static_cast<int>(requested) : nthreads_var.load();
  if (ctx.active_level >= max_active_levels.load())
  {
    n = 1;
  }
  n = std::min(n, thread_limit_var.load());
  if (shrink_mode.load() != 0 && n > 1)
  {
    n = 1 + static_cast<int>((Next() >> 33) % static_cast<uint64_t>(n));
  }
  return n < 1 ? 1 : n;
}

void RunTeam(Team& team, void (*fn)(void*), void* data)
{
  const Context saved = ctx;
  team.parent = saved.team;
  team.parent_num = saved.num;
  team.level = saved.level + 1;
  const auto body = [&](int num)
  {
    Context c;
    c.team = &team;
    c.num = num;
    c.level = saved.level + 1;
    c.active_level = saved.active_level + (team.size > 1 ? 1 : 0);
    c.rng = (num == 0) ? saved.rng : 0;
    ctx = c;
    Delay();
    fn(data);
    Delay();
  };
  std::vector<std::thread> threads;
  for (int i = 1; i < team.size; i++)
  {
    threads.emplace_back(body, i);
  }
  body(0);
  for (auto& t : threads)
  {
    t.join();
  }
  const uint64_t r = ctx.rng;
  ctx = saved;
  ctx.rng = r;
}

bool NextChunk(long* s, long* e)
{
  Team* t = ctx.team;
  Delay();
  if (t == nullptr)
  {
    return false;
  }
  const long total = (t->incr > 0) ? (t->end) : (t->end);
  for (;;)
  {
    long cur = t->next.load(std::memory_order_relaxed);
    const bool left = t->incr > 0 ? cur < total : cur > total;
    if (!left)
    {
      return false;
    }
    // Avoid overflow at the end of the range.
    const long remaining = t->incr > 0 ? total - cur : cur - total;
    const long step = t->incr > 0 ? t->incr * t->chunk : -t->incr * t->chunk;
    const long upto = (remaining <= step) ? total : (t->incr > 0 ? cur + step : cur - step);
    if (t->next.compare_exchange_weak(cur, upto, std::memory_order_relaxed))
    {
      *s = cur;
      *e = upto;
      return true;
    }
  }
}

void StartLoop(Team& t, long start, long end, long incr, long chunk)
{
  t.next.store(start, std::memory_order_relaxed);
  t.end = end;
  t.incr = incr;
  t.chunk = chunk < 1 ? 1 : chunk;
}

void ParallelLoop(void (*fn)(void*), void* data, unsigned num_threads, long start, long end,
                  long incr, long chunk)
{
  Team team;
  team.size = TeamSize(num_threads);
  StartLoop(team, start, end, incr, chunk);
  RunTeam(team, fn, data);
}

void Barrier()
{
  Team* t = ctx.team;
  if (t == nullptr || t->size == 1)
  {
    return;
  }
  std::unique_lock<std::mutex> lock(t->m);
  const uint64_t g = t->generation;
  if (++t->arrived == t->size)
  {
    t->arrived = 0;
    t->generation++;
    t->cv.notify_all();
  }
  else
  {
    t->cv.wait(lock, [&] { return t->generation != g; });
  }
}
}  // namespace

extern "C"
{
void vt_omp_configure(int delay, int shrink, int thread_limit, int nested_levels, uint64_t seed)
{
  delay_mode = delay;
  shrink_mode = shrink;
  thread_limit_var = thread_limit > 0 ? thread_limit : 0x7fffffff;
  max_active_levels = nested_levels > 0 ? nested_levels : 1;
  salt = seed | 1;
  ctx.rng = 0;
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
  Team team;
  team.size = TeamSize(n);
  RunTeam(team, fn, data);
}

#define VT_PARLOOP(name)                                                                    \
  void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c,      \
            unsigned)                                                                       \
  {                                                                                         \
    ParallelLoop(fn, data, n, s, e, i, c);                                                  \
  }
VT_PARLOOP(GOMP_parallel_loop_static)
VT_PARLOOP(GOMP_parallel_loop_dynamic)
VT_PARLOOP(GOMP_parallel_loop_guided)
VT_PARLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
VT_PARLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define VT_PARLOOP_RT(name)                                                                 \
  void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned)    \
  {                                                                                         \
    ParallelLoop(fn, data, n, s, e, i, 1);                                                  \
  }
VT_PARLOOP_RT(GOMP_parallel_loop_runtime)
VT_PARLOOP_RT(GOMP_parallel_loop_nonmonotonic_runtime)
VT_PARLOOP_RT(GOMP_parallel_loop_maybe_nonmonotonic_runtime)

#define VT_NEXT(name) bool name(long* s, long* e) { return NextChunk(s, e); }
VT_NEXT(GOMP_loop_static_next)
VT_NEXT(GOMP_loop_dynamic_next)
VT_NEXT(GOMP_loop_guided_next)
VT_NEXT(GOMP_loop_runtime_next)
VT_NEXT(GOMP_loop_nonmonotonic_dynamic_next)
VT_NEXT(GOMP_loop_nonmonotonic_guided_next)
VT_NEXT(GOMP_loop_nonmonotonic_runtime_next)
VT_NEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)

// Stand-alone worksharing loops inside a parallel region.
static bool LoopStart(long s, long e, long incr, long chunk, long* is, long* ie)
{
  Team* t = ctx.team;
  if (t == nullptr)
  {
    *is = s;
    *ie = e;
    return incr > 0 ? s < e : s > e;
  }
  Barrier();
  if (ctx.num == 0)
  {
    StartLoop(*t, s, e, incr, chunk);
  }
  Barrier();
  return NextChunk(is, ie);
}
#define VT_START(name)                                                                      \
  bool name(long s, long e, long i, long c, long* is, long* ie)                             \
  {                                                                                         \
    return LoopStart(s, e, i, c, is, ie);                                                   \
  }
VT_START(GOMP_loop_static_start)
VT_START(GOMP_loop_dynamic_start)
VT_START(GOMP_loop_guided_start)
VT_START(GOMP_loop_nonmonotonic_dynamic_start)
VT_START(GOMP_loop_nonmonotonic_guided_start)

void GOMP_loop_end() { Barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { Barrier(); }
void GOMP_critical_start() { critical_mutex.lock(); }
void GOMP_critical_end() { critical_mutex.unlock(); }
static std::mutex& Named(void** name)
{
  static std::mutex guard;
  static std::map<void**, std::unique_ptr<std::mutex>> all;
  std::lock_guard<std::mutex> lock(guard);
  auto& m = all[name];
  if (!m) { m = std::make_unique<std::mutex>(); }
  return *m;
}
void GOMP_critical_name_start(void** name) { Named(name).lock(); }
void GOMP_critical_name_end(void** name) { Named(name).unlock(); }
void GOMP_atomic_start() { atomic_mutex.lock(); }
void GOMP_atomic_end() { atomic_mutex.unlock(); }
bool GOMP_single_start()
{
  Team* t = ctx.team;
  if (t == nullptr)
  {
    return true;
  }
  int expected = ctx.singles_seen++;
  return t->singles.compare_exchange_strong(expected, expected + 1);
}

int omp_get_thread_num() { return ctx.num; }
int omp_get_num_threads() { return ctx.team != nullptr ? ctx.team->size : 1; }
int omp_get_max_threads() { return nthreads_var.load(); }
void omp_set_num_threads(int n)
{
  if (n > 0)
  {
    nthreads_var = n;
  }
}
int omp_in_parallel() { return ctx.active_level > 0 ? 1 : 0; }
int omp_get_thread_limit() { return thread_limit_var.load(); }
int omp_get_num_procs() { return static_cast<int>(std::thread::hardware_concurrency()); }
int omp_get_level() { return ctx.level; }
int omp_get_active_level() { return ctx.active_level; }
int omp_get_nested() { return max_active_levels.load() > 1; }
void omp_set_nested(int v) { max_active_levels = v ? 8 : 1; }
int omp_get_max_active_levels() { return max_active_levels.load(); }
void omp_set_max_active_levels(int v) { max_active_levels = v; }
int omp_get_dynamic() { return shrink_mode.load(); }
void omp_set_dynamic(int) {}
double omp_get_wtime()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

int omp_get_ancestor_thread_num(int level)
{
  if (level < 0 || level > ctx.level) { return -1; }
  if (level == 0) { return 0; }
  if (level == ctx.level) { return ctx.num; }
  for (Team* t = ctx.team; t != nullptr; t = t->parent)
  {
    if (t->level - 1 == level) { return t->parent_num; }
  }
  return 0;
}
int omp_get_team_size(int level)
{
  if (level < 0 || level > ctx.level) { return -1; }
  for (Team* t = ctx.team; t != nullptr; t = t->parent)
  {
    if (t->level == level) { return t->size; }
  }
  return 1;
}
int omp_in_final() { return 0; }
int omp_get_supported_active_levels() { return 0x7fffffff; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
double omp_get_wtick() { return 1e-9; }

// Locks: the user's object holds one pointer (nestable: two words).
void omp_init_lock(void** l) { *l = new std::mutex; }
void omp_init_lock_with_hint(void** l, int) { *l = new std::mutex; }
void omp_destroy_lock(void** l) { delete static_cast<std::mutex*>(*l); }
void omp_set_lock(void** l) { static_cast<std::mutex*>(*l)->lock(); }
void omp_unset_lock(void** l) { static_cast<std::mutex*>(*l)->unlock(); }
int omp_test_lock(void** l) { return static_cast<std::mutex*>(*l)->try_lock() ? 1 : 0; }
void omp_init_nest_lock(void** l) { *l = new std::recursive_mutex; }
void omp_destroy_nest_lock(void** l) { delete static_cast<std::recursive_mutex*>(*l); }
void omp_set_nest_lock(void** l) { static_cast<std::recursive_mutex*>(*l)->lock(); }
void omp_unset_nest_lock(void** l) { static_cast<std::recursive_mutex*>(*l)->unlock(); }
int omp_test_nest_lock(void** l) { return static_cast<std::recursive_mutex*>(*l)->try_lock() ? 1 : 0; }

// More ways to start and continue worksharing loops.
VT_START(GOMP_loop_maybe_nonmonotonic_dynamic_start)
static bool RuntimeStart(long s, long e, long i, long* is, long* ie) { return LoopStart(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return RuntimeStart(s, e, i, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return RuntimeStart(s, e, i, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return RuntimeStart(s, e, i, is, ie); }

typedef unsigned long long ull;
static bool UNext(ull* s, ull* e)
{
  Team* t = ctx.team;
  Delay();
  if (t == nullptr) { return false; }
  std::lock_guard<std::mutex> lock(t->u_mutex);
  const bool left = t->u_up ? t->u_next < t->u_end : t->u_next > t->u_end;
  if (!left) { return false; }
  const ull remaining = t->u_up ? t->u_end - t->u_next : t->u_next - t->u_end;
  const ull step = (t->u_up ? t->u_incr : 0 - t->u_incr) * t->u_chunk;
  *s = t->u_next;
  t->u_next = (remaining <= step) ? t->u_end : (t->u_up ? t->u_next + step : t->u_next - step);
  *e = t->u_next;
  return true;
}
static bool UStart(bool up, ull s, ull e, ull incr, ull chunk, ull* is, ull* ie)
{
  Team* t = ctx.team;
  if (t == nullptr)
  {
    *is = s;
    *ie = e;
    return up ? s < e : s > e;
  }
  Barrier();
  if (ctx.num == 0)
  {
    std::lock_guard<std::mutex> lock(t->u_mutex);
    t->u_up = up;
    t->u_next = s;
    t->u_end = e;
    t->u_incr = incr;
    t->u_chunk = chunk < 1 ? 1 : chunk;
  }
  Barrier();
  return UNext(is, ie);
}
#define VT_USTART(name) \
  bool name(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return UStart(up, s, e, i, c, is, ie); }
VT_USTART(GOMP_loop_ull_static_start)
VT_USTART(GOMP_loop_ull_dynamic_start)
VT_USTART(GOMP_loop_ull_guided_start)
VT_USTART(GOMP_loop_ull_nonmonotonic_dynamic_start)
VT_USTART(GOMP_loop_ull_nonmonotonic_guided_start)
#define VT_URSTART(name) \
  bool name(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return UStart(up, s, e, i, 1, is, ie); }
VT_URSTART(GOMP_loop_ull_runtime_start)
VT_URSTART(GOMP_loop_ull_nonmonotonic_runtime_start)
VT_URSTART(GOMP_loop_ull_maybe_nonmonotonic_runtime_start)
#define VT_UNEXT(name) bool name(ull* s, ull* e) { return UNext(s, e); }
VT_UNEXT(GOMP_loop_ull_static_next)
VT_UNEXT(GOMP_loop_ull_dynamic_next)
VT_UNEXT(GOMP_loop_ull_guided_next)
VT_UNEXT(GOMP_loop_ull_runtime_next)
VT_UNEXT(GOMP_loop_ull_nonmonotonic_dynamic_next)
VT_UNEXT(GOMP_loop_ull_nonmonotonic_guided_next)
VT_UNEXT(GOMP_loop_ull_nonmonotonic_runtime_next)
VT_UNEXT(GOMP_loop_ull_maybe_nonmonotonic_runtime_next)

// Sections.
unsigned GOMP_sections_next()
{
  Team* t = ctx.team;
  Delay();
  if (t == nullptr) { return 0; }
  const unsigned n = t->section.fetch_add(1, std::memory_order_relaxed);
  return n < t->sections ? n + 1 : 0;
}
unsigned GOMP_sections_start(unsigned count)
{
  Team* t = ctx.team;
  if (t == nullptr) { return 0; }
  Barrier();
  if (ctx.num == 0)
  {
    t->section.store(0, std::memory_order_relaxed);
    t->sections = count;
  }
  Barrier();
  return GOMP_sections_next();
}
void GOMP_sections_end() { Barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
  Team team;
  team.size = TeamSize(n);
  team.sections = count;
  RunTeam(team, fn, data);
}

unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned)
{
  Team team;
  team.size = TeamSize(n);
  RunTeam(team, fn, data);
  return static_cast<unsigned>(team.size);
}

void* GOMP_single_copy_start()
{
  if (GOMP_single_start()) { return nullptr; }
  Barrier();
  void* p = ctx.team->copyprivate;
  Barrier();
  return p;
}
void GOMP_single_copy_end(void* data)
{
  if (ctx.team == nullptr) { return; }
  ctx.team->copyprivate = data;
  Barrier();
  Barrier();
}

// Tasks run where they are created.
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
  if (cpy == nullptr)
  {
    fn(data);
    return;
  }
  std::vector<char> raw(static_cast<size_t>(size + align));
  char* p = raw.data();
  p += (static_cast<uintptr_t>(align) - reinterpret_cast<uintptr_t>(p) % static_cast<uintptr_t>(align)) % static_cast<uintptr_t>(align);
  cpy(p, data);
  fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
}
