// Probabilistic roadmaps.  VT_PROP 28: building and growing; 29: queries;
// 30: updating edge weights.
#include "common.hpp"

#ifdef _OPENMP
#include <omp.h>
#endif

#include <array>
#include <atomic>
#include <thread>

#include <Eigen/Geometry>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>

#ifdef VT_OMP_SHIM
extern "C" void vt_omp_configure(int, int, int, int, uint64_t);
#endif

using namespace vt;
namespace cru = common_robotics_utilities;
namespace sg = cru::simple_graph;
namespace prm = cru::simple_prm_planner;
using cru::parallelism::DegreeOfParallelism;

namespace
{
constexpr double kInf = std::numeric_limits<double>::infinity();

struct S
{
  double x = 0, y = 0;
};
std::ostream& operator<<(std::ostream& o, const S& s) { return o << "(" << s.x << "," << s.y << ")"; }
bool Same(const S& a, const S& b) { return a.x == b.x && a.y == b.y; }
using G = sg::Graph<S>;
using Overlay = sg::NonOwningGraphOverlay<S, G>;
using Path = std::vector<S>;

uint64_t HashD(double d) { uint64_t v; d += 0.0; std::memcpy(&v, &d, 8); return v; }
uint64_t HashS(const S& s) { return Combine(HashD(s.x), HashD(s.y)); }

// Distances obey the triangle inequality; the asymmetric one adds the climb of a
// potential.  Validity is a pseudo-random relation on states and edges.
struct World
{
  bool symmetric = true;
  bool lattice = false;
  bool jitter = false;  // states so close together that only the exactly equal ones are duplicates
  bool downhill_free = false;  // asymmetric only: moving down costs nothing at all
  uint64_t salt = 0;
  double edge_density = 1.0, state_density = 1.0;
  int max_threads = 1;
  // Which thread numbers are inside a callback right now.
  mutable std::array<std::atomic<bool>, 16> busy{};

  double Distance(const S& a, const S& b) const
  {
    const auto pot = [](const S& s) { return 0.7 * s.x - 0.4 * s.y; };
    const double climb = std::max(0.0, pot(b) - pot(a));
    if (downhill_free) { return climb; }
    return std::hypot(a.x - b.x, a.y - b.y) + (symmetric ? 0.0 : climb);
  }
  bool Edge(const S& a, const S& b) const
  {
    const uint64_t ha = HashS(a), hb = HashS(b);
    const uint64_t h = symmetric ? Combine(Mix(ha ^ hb), salt) : Combine(Combine(ha, hb), salt);
    return static_cast<double>(h >> 11) * 0x1.0p-53 < edge_density;
  }
  bool State(const S& a) const
  {
    return static_cast<double>(Combine(HashS(a), salt + 1) >> 11) * 0x1.0p-53 < state_density;
  }
  void Thread(int t) const
  {
    VT_EXPECT(t >= 0 && t < max_threads, "thread-number-out-of-range", t, " of ", max_threads);
  }
  // A thread number is a slot no two running callbacks share.
  struct Slot
  {
    Slot(const World& world, int t) : w(world), n(t)
    {
      w.Thread(t);
      if (n < 0 || n >= 16) { return; }
      VT_EXPECT(!w.busy[static_cast<size_t>(n)].exchange(true), "thread-number-shared", n, " of ", w.max_threads);
      if (w.max_threads > 1) { std::this_thread::yield(); Count("slots_taken"); }
    }
    ~Slot() { if (n >= 0 && n < 16) { w.busy[static_cast<size_t>(n)].store(false); } }
    const World& w;
    int n;
  };
  std::function<double(const S&, const S&)> DistFn() const
  { return [this](const S& a, const S& b) { return Distance(a, b); }; }
  std::function<bool(const int32_t, const S&, const S&)> EdgeFn() const
  { return [this](const int32_t t, const S& a, const S& b) { const Slot slot(*this, t); return Edge(a, b); }; }
  std::function<bool(const int32_t, const S&)> StateFn() const
  { return [this](const int32_t t, const S& a) { const Slot slot(*this, t); return State(a); }; }
  S Sample(uint64_t h) const
  {
    Rng r(h);
    S s;
    if (lattice) { s.x = static_cast<double>(r.Int(-4, 4)); s.y = static_cast<double>(r.Int(-4, 4)); }
    else if (jitter) { s.x = static_cast<double>(r.Int(-2, 2)) + 1e-9 * static_cast<double>(r.Int(0, 3)); s.y = static_cast<double>(r.Int(-2, 2)); }
    else { s.x = r.Real(-5, 5); s.y = r.Real(-5, 5); }
    return s;
  }
};

void Setup(Rng& rng, World& w)
{
  w.symmetric = rng.Chance(0.5);
  w.lattice = rng.Chance(0.25);
  w.jitter = !w.lattice && rng.Chance(0.15);
  if (w.jitter) { Count("nearly_coincident_worlds"); }
  w.salt = rng.Next();
  w.edge_density = rng.Pick(std::vector<double>{0.0, 0.3, 0.7, 0.9, 1.0, 1.0});
#if VT_PROP == 28
  w.downhill_free = !w.symmetric && rng.Chance(0.2);
#endif
  w.state_density = rng.Pick(std::vector<double>{0.3, 0.8, 1.0});
  w.max_threads = rng.Pick(std::vector<int>{1, 1, 2, 3, 8});
#ifdef VT_OMP_SHIM
  vt_omp_configure(static_cast<int>(rng.Int(0, 2)), static_cast<int>(rng.Int(0, 1)), 64, 1, rng.Next());
#endif
}

DegreeOfParallelism Par(const World& w) { return DegreeOfParallelism(w.max_threads); }

template<typename GraphT>
void CheckLinkage(const GraphT& g, const std::string& key)
{
  std::map<std::pair<int64_t, int64_t>, std::multiset<double>> in, out;
  for (int64_t i = 0; i < g.Size(); i++)
  {
    for (const auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable())
    {
      VT_CHECK(e.GetFromIndex() == i && e.GetToIndex() >= 0 && e.GetToIndex() < g.Size() && e.GetToIndex() != i,
               key, "out edge ", e.GetFromIndex(), "->", e.GetToIndex(), " stored at ", i);
      out[{e.GetFromIndex(), e.GetToIndex()}].insert(e.GetWeight());
    }
    for (const auto& e : g.GetNodeImmutable(i).GetInEdgesImmutable())
    {
      VT_CHECK(e.GetToIndex() == i && e.GetFromIndex() >= 0 && e.GetFromIndex() < g.Size() && e.GetFromIndex() != i,
               key, "in edge ", e.GetFromIndex(), "->", e.GetToIndex(), " stored at ", i);
      in[{e.GetFromIndex(), e.GetToIndex()}].insert(e.GetWeight());
    }
  }
  VT_CHECK(in == out, key, "in and out copies of the edges differ");
  VT_CHECK(g.CheckGraphLinkage(), key, "CheckGraphLinkage refuses the roadmap");
}

// Which of `others` must / may be among the K nearest (ties are free choices).
struct Nearest
{
  std::set<int64_t> must, may;
};

template<typename DistOf>
Nearest KNearest(const std::vector<int64_t>& others, int64_t K, DistOf&& dist)
{
  Nearest n;
  std::vector<double> d;
  for (const int64_t o : others) { d.push_back(dist(o)); }
  std::vector<double> sorted = d;
  std::sort(sorted.begin(), sorted.end());
  if (K <= 0) { return n; }
  const double kth = K >= static_cast<int64_t>(sorted.size()) ? kInf : sorted[static_cast<size_t>(K - 1)];
  size_t within = 0;
  for (const double x : d) { within += x <= kth ? 1 : 0; }
  const bool tied = within > static_cast<size_t>(K);
  for (size_t i = 0; i < d.size(); i++)
  {
    if (d[i] < kth || (d[i] == kth && !tied)) { n.must.insert(others[i]); n.may.insert(others[i]); }
    else if (d[i] == kth) { n.may.insert(others[i]); }
  }
  return n;
}

template<typename GraphT>
std::map<std::pair<int64_t, int64_t>, std::vector<double>> Edges(const GraphT& g)
{
  std::map<std::pair<int64_t, int64_t>, std::vector<double>> m;
  for (int64_t i = 0; i < g.Size(); i++)
  {
    for (const auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable())
    {
      m[{e.GetFromIndex(), e.GetToIndex()}].push_back(e.GetWeight());
    }
  }
  return m;
}

template<typename GraphT>
const S& At(const GraphT& g, int64_t i) { return g.GetNodeImmutable(i).GetValueImmutable(); }

// Edges between node i and the earlier nodes below `limit` are exactly those to its
// K nearest that pass the validity check, weighted with the distance.
template<typename GraphT>
void CheckConnections(const GraphT& g, const World& w, int64_t i, int64_t limit, int64_t K, bool to_roadmap,
                      const std::map<std::pair<int64_t, int64_t>, std::vector<double>>& edges,
                      const std::string& key)
{
  std::vector<int64_t> others;
  for (int64_t o = 0; o < limit; o++) { others.push_back(o); }
  const Nearest near = KNearest(others, K, [&](int64_t o)
  { return to_roadmap ? w.Distance(At(g, i), At(g, o)) : w.Distance(At(g, o), At(g, i)); });
  int64_t used = 0;
  for (const int64_t o : others)
  {
    bool any = false;
    for (const bool forward : {true, false})
    {
      const int64_t from = forward ? o : i, to = forward ? i : o;
      const auto it = edges.find({from, to});
      const bool present = it != edges.end();
      const bool valid = w.Edge(At(g, from), At(g, to));
      any = any || valid;
      if (present)
      {
        VT_CHECK(it->second.size() == 1, key + "/duplicate-edge", from, "->", to);
        VT_CHECK(valid, key + "/invalid-edge", from, "->", to, " ", At(g, from), "->", At(g, to));
        const double d = w.Distance(At(g, from), At(g, to));
        VT_CHECK(it->second[0] == d, key + "/wrong-weight", from, "->", to, " weight ", it->second[0], " distance ", d,
                 " new node ", i);
        VT_CHECK(near.may.count(o), key + "/not-a-neighbour", from, "->", to, " K ", K);
        Count("edges_checked");
      }
      else
      {
        VT_CHECK(!(valid && near.must.count(o)), key + "/missing-edge", from, "->", to, " is valid, K ", K,
                 " new node ", i);
      }
    }
    (void)any;
    if (edges.count({o, i}) || edges.count({i, o})) { used++; }
  }
  VT_CHECK(used <= K, key + "/too-many-neighbours", used, " K ", K);
}

std::unique_ptr<prm::LinearGraphKNNProvider<S, G>> Knn(const World& w, bool parallel)
{
  return std::make_unique<prm::LinearGraphKNNProvider<S, G>>(
      w.DistFn(), parallel ? Par(w) : DegreeOfParallelism::None());
}

// ---------------------------------------------------------------- build
void Build(Rng& rng, uint64_t)
{
  World w;
  Setup(rng, w);
  const int64_t size = vt::Large() ? rng.Int(100, 300) : rng.Chance(0.1) ? rng.Int(-1, 2) : rng.Int(2, 40);
  // Sometimes about as many neighbours as there are nodes.
  const int64_t K = rng.Chance(0.05) ? rng.Int(-1, 0) : rng.Chance(0.2) ? std::max<int64_t>(1, size + rng.Int(-3, 2)) : rng.Int(1, 8);
  const int32_t tries = static_cast<int32_t>(rng.Chance(0.05) ? rng.Int(-1, 0) : rng.Int(1, 200));
  if (rng.Chance(0.05)) { w.state_density = 0.0; }
  const bool dup = rng.Chance(0.5), parallel_sampling = rng.Chance(0.7);
  const uint64_t salt = rng.Next();
  std::atomic<uint64_t> samples(0), valid_samples(0);
  const auto knn = Knn(w, false);
  std::function<S(const int32_t)> sample = [&](const int32_t t)
  {
    w.Thread(t);
    const S s = w.Sample(Combine(salt, samples.fetch_add(1)));
    if (w.State(s)) { valid_samples.fetch_add(1); }
    return s;
  };
  std::unique_ptr<G> g;
  const Thrown t = Catch([&]
  {
    if (parallel_sampling && w.symmetric && !dup)  // these are the defaults
    {
      g = std::make_unique<G>(prm::BuildRoadMap<S, G>(size, sample, *knn, w.DistFn(), w.StateFn(), w.EdgeFn(), K, tries, Par(w)));
      return;
    }
    g = std::make_unique<G>(prm::BuildRoadMap<S, G>(size, sample, *knn, w.DistFn(), w.StateFn(), w.EdgeFn(), K, tries,
                                                    Par(w), parallel_sampling, w.symmetric, dup));
  });
  if (size < 0 || K < 1 || tries < 1)
  {
    VT_CHECK(t == Thrown::RUNTIME_ERROR && samples.load() == 0, "build/bad-arguments-accepted", size, " ", K, " ", tries);
    Count("builds_rejected");
    return;
  }
  if (t != Thrown::NONE)
  {
    VT_CHECK(t == Thrown::RUNTIME_ERROR, "build/wrong-exception", LastWhat());
    // Only if some node used up its tries: either all invalid or duplicates.
    VT_CHECK(samples.load() >= static_cast<uint64_t>(tries), "build/gave-up-early", samples.load(), " samples, tries ", tries);
    VT_CHECK(samples.load() <= static_cast<uint64_t>(size) * static_cast<uint64_t>(tries), "build/too-many-samples", samples.load());
    VT_CHECK(w.state_density < 1.0 || ((w.lattice || w.jitter || w.downhill_free) && !dup), "build/failed-without-reason", "");
    Count("builds_sampling_failed");
    return;
  }
  VT_CHECK(g->Size() == size, "build/size", g->Size(), " expected ", size);
  VT_CHECK(samples.load() <= static_cast<uint64_t>(size) * static_cast<uint64_t>(tries), "build/too-many-samples", samples.load());
  VT_CHECK(!dup || valid_samples.load() == static_cast<uint64_t>(size), "build/valid-samples-lost", valid_samples.load());
  CheckLinkage(*g, "build/linkage");
  const auto edges = Edges(*g);
  std::vector<Nearest> near;
  for (int64_t i = 0; i < size; i++)
  {
    VT_CHECK(w.State(At(*g, i)), "build/invalid-state", At(*g, i));
    std::vector<int64_t> all;
    for (int64_t o = 0; o < size; o++)
    {
      all.push_back(o);
      VT_CHECK(dup || o == i || !Same(At(*g, o), At(*g, i)), "build/duplicate-state", At(*g, i));
    }
    // K+1 nearest including the node itself.
    near.push_back(KNearest(all, K + 1, [&](int64_t o) { return w.Distance(At(*g, o), At(*g, i)); }));
  }
  for (int64_t i = 0; i < size; i++)
  {
    for (int64_t j = 0; j < size; j++)
    {
      if (i == j) { continue; }
      const bool valid = w.Edge(At(*g, i), At(*g, j));
      const bool must = near[static_cast<size_t>(i)].must.count(j) || near[static_cast<size_t>(j)].must.count(i);
      const bool may = near[static_cast<size_t>(i)].may.count(j) || near[static_cast<size_t>(j)].may.count(i);
      const auto it = edges.find({i, j});
      if (it == edges.end())
      {
        VT_CHECK(!(must && valid), "build/missing-edge", i, "->", j, " K ", K);
        continue;
      }
      VT_CHECK(it->second.size() == 1, "build/duplicate-edge", i, "->", j);
      VT_CHECK(valid, "build/invalid-edge", At(*g, i), "->", At(*g, j));
      VT_CHECK(may, "build/not-a-neighbour", i, "->", j, " K ", K);
      VT_CHECK(it->second[0] == w.Distance(At(*g, i), At(*g, j)), "build/wrong-weight", i, "->", j, " ", it->second[0]);
      Count("edges_checked");
    }
  }
  Count("roadmaps_built");
  Nontrivial(Combine(Combine(w.salt, static_cast<uint64_t>(size)), edges.size()));
}

// ---------------------------------------------------------------- grow
void Grow(Rng& rng, uint64_t)
{
  World w;
  Setup(rng, w);
  const int64_t K = rng.Int(1, 6);
  const bool dup = rng.Chance(0.4);
  const auto knn = Knn(w, rng.Chance(0.5));
  const uint64_t salt = rng.Next();
  G g;
  uint64_t drawn = 0;
  std::vector<S> accepted;       // model of the node list
  uint64_t rejected = 0, duplicates = 0;
  for (int round = 0; round < 2; round++)
  {
    const int64_t target = g.Size() + (vt::Large() ? rng.Int(60, 150) : rng.Int(0, 20));
    const uint64_t budget = drawn + 300;
    uint64_t valid_here = 0, bad_here = 0, dup_here = 0;
    const int64_t before = g.Size();
    const std::function<S(const int32_t)> sample = [&](const int32_t t)
    {
      w.Thread(t);
      const S s = w.Sample(Combine(salt, drawn++));
      if (!w.State(s)) { bad_here++; rejected++; return s; }
      bool known = false;
      if (!dup)
      {
        // The nearest roadmap node is a duplicate: distance zero.
        for (const S& o : accepted) { known = known || w.Distance(o, s) == 0.0; }
      }
      if (known) { dup_here++; duplicates++; }
      else { accepted.push_back(s); valid_here++; }
      return s;
    };
    const std::function<bool(const int64_t)> stop = [&](const int64_t n)
    {
      VT_EXPECT(n == g.Size() && n == static_cast<int64_t>(accepted.size()), "grow/termination-check-size", n, " roadmap ", g.Size(), " expected ", accepted.size());
      return n >= target || drawn >= budget;
    };
    const auto stats =
        (w.symmetric && !dup)
            ? prm::GrowRoadMap<S, G>(g, sample, *knn, w.DistFn(), w.StateFn(), w.EdgeFn(), stop, K, Par(w))  // the defaults
            : prm::GrowRoadMap<S, G>(g, sample, *knn, w.DistFn(), w.StateFn(), w.EdgeFn(), stop, K, Par(w), w.symmetric, dup);
    VT_CHECK(stats.at("total_samples") == static_cast<double>(valid_here + bad_here + dup_here) &&
                 stats.at("successful_samples") == static_cast<double>(valid_here) &&
                 stats.at("duplicate_samples") == static_cast<double>(dup_here) &&
                 stats.at("failed_samples") == static_cast<double>(bad_here) &&
                 g.Size() == before + static_cast<int64_t>(valid_here),
             "grow/statistics", stats.at("total_samples"), " ", stats.at("successful_samples"), " ",
             stats.at("duplicate_samples"), " ", stats.at("failed_samples"));
  }
  VT_CHECK(g.Size() == static_cast<int64_t>(accepted.size()), "grow/size", g.Size(), " expected ", accepted.size());
  for (int64_t i = 0; i < g.Size(); i++)
  {
    VT_CHECK(Same(At(g, i), accepted[static_cast<size_t>(i)]), "grow/node-value", i);
  }
  CheckLinkage(g, "grow/linkage");
  const auto edges = Edges(g);
  for (int64_t i = 0; i < g.Size(); i++) { CheckConnections(g, w, i, i, K, false, edges, "grow"); }
  Count("roadmaps_grown");
  Count("duplicates_skipped", duplicates);
  if (g.Size() > 1) { Nontrivial(Combine(w.salt, Combine(static_cast<uint64_t>(g.Size()), edges.size()))); }
}

// One node at a time, in both directions, on graphs and overlays.
void AddOne(Rng& rng, uint64_t)
{
  World w;
  Setup(rng, w);
  const int64_t K = rng.Int(0, 6);
  const bool dup = rng.Chance(0.4);
  G base;
  const int64_t n = vt::Large() ? rng.Int(60, 200) : rng.Int(0, 15);
  for (int64_t i = 0; i < n; i++) { base.AddNode(w.Sample(rng.Next())); }
  const auto knn = Knn(w, rng.Chance(0.5));
  const auto run = [&](auto& g)
  {
    for (int step = 0; step < 8; step++)
    {
      S s = w.Sample(rng.Next());
      if (g.Size() > 0 && rng.Chance(0.2)) { s = At(g, rng.Int(0, g.Size() - 1)); }
      const bool to_roadmap = rng.Chance(0.5);
      const int64_t before = g.Size();
      const int64_t limit = rng.Chance(0.7) ? before : rng.Int(0, before);
      const auto old_edges = Edges(g);
      const int64_t got = prm::AddNodeToRoadmap<S>(
          s, to_roadmap ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE,
          g, *knn, w.DistFn(), w.EdgeFn(), K, limit, Par(w), w.symmetric, dup);
      auto edges = Edges(g);
      Nearest near;
      std::vector<int64_t> others;
      for (int64_t o = 0; o < limit; o++) { others.push_back(o); }
      const auto d = [&](int64_t o) { return to_roadmap ? w.Distance(s, At(g, o)) : w.Distance(At(g, o), s); };
      bool duplicate = false;
      for (const int64_t o : KNearest(others, K, d).may) { duplicate = duplicate || d(o) == 0.0; }
      if (!dup && duplicate)
      {
        VT_CHECK(g.Size() == before && got >= 0 && got < limit && d(got) == 0.0, "add/duplicate-added", got);
        VT_CHECK(edges == old_edges, "add/duplicate-changed-edges", got);
        Count("duplicates_skipped");
        continue;
      }
      VT_CHECK(got == before && g.Size() == before + 1 && Same(At(g, got), s), "add/new-node", got, " ", g.Size());
      CheckConnections(g, w, got, limit, K, to_roadmap, edges, "add");
      for (const auto& kv : old_edges)
      {
        const auto it = edges.find(kv.first);
        VT_CHECK(it != edges.end() && it->second == kv.second, "add/other-edges-changed", kv.first.first, "->", kv.first.second);
      }
      for (const auto& kv : edges)
      {
        VT_CHECK(old_edges.count(kv.first) || ((kv.first.first == got) != (kv.first.second == got)),
                 "add/foreign-edge", kv.first.first, "->", kv.first.second);
      }
      CheckLinkage(g, "add/linkage");
      Count("nodes_added");
      Nontrivial(Combine(w.salt, Combine(static_cast<uint64_t>(got), edges.size())));
    }
  };
  if (rng.Chance(0.5)) { run(base); }
  else
  {
    Overlay ov(base);
    const auto before = Edges(base);
    run(ov);
    VT_CHECK(base.Size() == n && Edges(base) == before, "add/overlay-changed-base", base.Size());
  }
}

// A provider that breaks its promise is caught before the roadmap changes.
class BadKnn final : public prm::GraphKNNProvider<S, G>
{
public:
  explicit BadKnn(int64_t index) : index_(index) {}
private:
  std::vector<cru::simple_knearest_neighbors::IndexAndDistance> Get() const
  { return {cru::simple_knearest_neighbors::IndexAndDistance(index_, 1.0)}; }
  std::vector<cru::simple_knearest_neighbors::IndexAndDistance> DoGetKNearestNeighbors(
      const G&, const S&, const int64_t, const prm::NNDistanceDirection, const int64_t) const final { return Get(); }
  std::vector<cru::simple_knearest_neighbors::IndexAndDistance> DoGetKNearestNeighbors(
      const Overlay&, const S&, const int64_t, const prm::NNDistanceDirection, const int64_t) const final { return Get(); }
  int64_t index_;
};

void BadProvider(Rng& rng, uint64_t)
{
  World w;
  Setup(rng, w);
  w.edge_density = 1.0;
  G g;
  const int64_t n = rng.Int(1, 5);
  for (int64_t i = 0; i < n; i++) { g.AddNode(w.Sample(rng.Next())); }
  const int64_t limit = rng.Int(0, n);
  const int64_t index = rng.Int(-3, n + 2);
  const BadKnn knn(index);
  const bool ok = index >= 0 && index < limit;
  const Thrown t = Catch([&]
  {
    prm::AddNodeToRoadmap<S>(w.Sample(rng.Next()), prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE, g, knn, w.DistFn(),
                             w.EdgeFn(), 1, limit, Par(w), w.symmetric, false);
  });
  VT_CHECK((t == Thrown::NONE) == ok, "knn-provider/result-not-checked", index, " limit ", limit, " ", LastWhat());
  VT_CHECK(g.Size() == (ok ? n + 1 : n), "knn-provider/roadmap-changed-anyway", "index ", index, " limit ", limit, " size ", g.Size(), " was ", n);
  VT_CHECK(ok || t == Thrown::RUNTIME_ERROR, "knn-provider/wrong-exception", index, " ", LastWhat());
  VT_CHECK(Catch([] { prm::LinearGraphKNNProvider<S, G> p({}, DegreeOfParallelism::None()); }) ==
               Thrown::INVALID_ARGUMENT, "knn-provider/empty-function-accepted", "");
  Nontrivial(Combine(static_cast<uint64_t>(index + 10), static_cast<uint64_t>(n * 10 + limit)));
}

// ---------------------------------------------------------------- query
struct Model
{
  std::vector<S> nodes;
  std::map<std::pair<int64_t, int64_t>, double> edges;
  bool ambiguous = false;
};

int64_t ModelAdd(Model& m, const World& w, const S& s, int64_t K, int64_t limit, bool to_roadmap, bool dup)
{
  std::vector<std::pair<double, int64_t>> d;
  for (int64_t o = 0; o < limit; o++)
  {
    d.emplace_back(to_roadmap ? w.Distance(s, m.nodes[static_cast<size_t>(o)]) : w.Distance(m.nodes[static_cast<size_t>(o)], s), o);
  }
  std::sort(d.begin(), d.end());
  const size_t k = std::min(d.size(), static_cast<size_t>(std::max<int64_t>(K, 0)));
  if (k > 0 && k < d.size() && d[k - 1].first == d[k].first) { m.ambiguous = true; }
  if (!dup && k > 0 && d[0].first == 0.0)
  {
    if (k > 1 && d[1].first == 0.0) { m.ambiguous = true; }
    return d[0].second;
  }
  const int64_t me = static_cast<int64_t>(m.nodes.size());
  m.nodes.push_back(s);
  for (size_t i = 0; i < k; i++)
  {
    const int64_t o = d[i].second;
    const S& os = m.nodes[static_cast<size_t>(o)];
    if (w.Edge(os, s)) { m.edges[{o, me}] = w.Distance(os, s); }
    if (w.Edge(s, os)) { m.edges[{me, o}] = w.Distance(s, os); }
  }
  return me;
}

void Query(Rng& rng, uint64_t)
{
  World w;
  Setup(rng, w);
  w.lattice = rng.Chance(0.15);
  if (w.edge_density < 0.3) { w.edge_density = 0.5; }
  const int64_t K = rng.Int(0, 6);
  const bool dup = rng.Chance(0.4);
  const bool lazy = rng.Chance(0.5);
  const auto knn = Knn(w, rng.Chance(0.3));
  // A roadmap whose stored edges are trusted by plain queries (weight at least the
  // distance, some infinite) and mistrusted by lazy ones (arbitrary edges).
  G g;
  Model m;
  const int64_t n = vt::Large() ? rng.Int(80, 250) : rng.Chance(0.05) ? 0 : rng.Int(1, 25);
  for (int64_t i = 0; i < n; i++)
  {
    const S s = w.Sample(rng.Next());
    g.AddNode(s);
    m.nodes.push_back(s);
  }
  for (int64_t i = 0; i < n; i++)
  {
    for (int64_t j = 0; j < n; j++)
    {
      if (i == j || rng.Chance(0.85)) { continue; }
      const S &a = At(g, i), &b = At(g, j);
      if (lazy)
      {
        // Stored weights are not to be believed.
        g.AddEdgeBetweenNodes(i, j, rng.Chance(0.5) ? rng.Real(0, 100) : kInf);
        if (w.Edge(a, b)) { m.edges[{i, j}] = w.Distance(a, b); }
      }
      else
      {
        if (!w.Edge(a, b)) { continue; }
        const double weight = rng.Chance(0.1) ? kInf : w.Distance(a, b) * (rng.Chance(0.3) ? rng.Real(1, 3) : 1.0);
        g.AddEdgeBetweenNodes(i, j, weight);
        m.edges[{i, j}] = weight;
      }
    }
  }
  Path starts, goals;
  const auto pick = [&](Path& v)
  {
    for (size_t k = rng.Chance(0.04) ? 0 : rng.Size(1, 3); k > 0; k--)
    {
      S s = w.Sample(rng.Next());
      if (n > 0 && rng.Chance(0.3)) { s = At(g, rng.Int(0, n - 1)); }
      else if (!starts.empty() && rng.Chance(0.05)) { s = rng.Pick(starts); }
      v.push_back(s);
    }
  };
  pick(starts);
  pick(goals);
  const int variant = static_cast<int>(rng.Int(0, 2));  // 0 adds nodes, 1 overlay, 2 working copy
  const bool limit_dups = rng.Chance(0.5);
  const G before = g;
  const auto before_edges = Edges(g);
  std::unique_ptr<cru::simple_astar_search::AstarResult<S, Path>> r;
  const Thrown t = Catch([&]
  {
    using R = cru::simple_astar_search::AstarResult<S, Path>;
    if (w.symmetric && !dup && limit_dups && variant < 2)  // these are the defaults
    {
      if (variant == 0)
      {
        r = std::make_unique<R>(
            lazy ? prm::LazyQueryPathAndAddNodes<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w))
                 : prm::QueryPathAndAddNodes<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w)));
      }
      else
      {
        r = std::make_unique<R>(
            lazy ? prm::LazyQueryPath<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w))
                 : prm::QueryPath<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w)));
      }
    }
    else if (variant == 0)
    {
      r = std::make_unique<R>(
          lazy ? prm::LazyQueryPathAndAddNodes<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w), w.symmetric, dup, limit_dups)
               : prm::QueryPathAndAddNodes<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w), w.symmetric, dup, limit_dups));
    }
    else
    {
      r = std::make_unique<R>(
          lazy ? prm::LazyQueryPath<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w), w.symmetric, dup, limit_dups, variant == 1)
               : prm::QueryPath<S, Path, G>(starts, goals, g, *knn, w.DistFn(), w.EdgeFn(), K, Par(w), w.symmetric, dup, limit_dups, variant == 1));
    }
  });
  const auto unchanged = [&]
  {
    if (g.Size() != before.Size() || Edges(g) != before_edges) { return false; }
    for (int64_t i = 0; i < g.Size(); i++) { if (!Same(At(g, i), At(before, i))) { return false; } }
    return true;
  };
  if (starts.empty() || goals.empty())
  {
    VT_CHECK(t == Thrown::RUNTIME_ERROR && unchanged(), "query/empty-starts-or-goals-accepted", starts.size(), " ", goals.size());
    Count("queries_rejected");
    return;
  }
  VT_CHECK(t == Thrown::NONE, "query/exception", LastWhat());
  std::vector<int64_t> si, gi;
  const int64_t pre_starts = static_cast<int64_t>(m.nodes.size());
  for (const S& s : starts) { si.push_back(ModelAdd(m, w, s, K, pre_starts, true, dup)); }
  const int64_t pre_goals = static_cast<int64_t>(m.nodes.size());
  for (const S& s : goals) { gi.push_back(ModelAdd(m, w, s, K, pre_goals, false, dup)); }
  if (variant != 0) { VT_CHECK(unchanged(), "query/const-roadmap-changed", variant); }
  else
  {
    CheckLinkage(g, "query/linkage");
    if (!m.ambiguous)
    {
      VT_CHECK(g.Size() == static_cast<int64_t>(m.nodes.size()), "query/nodes-added", g.Size(), " expected ", m.nodes.size());
      std::map<std::pair<int64_t, int64_t>, double> got;
      for (const auto& kv : Edges(g))
      {
        if (kv.first.first >= n || kv.first.second >= n)
        {
          VT_CHECK(kv.second.size() == 1, "query/duplicate-edge", kv.first.first, "->", kv.first.second);
          const auto it = m.edges.find(kv.first);
          VT_CHECK(it != m.edges.end() && it->second == kv.second[0], "query/added-edge", kv.first.first, "->", kv.first.second, " weight ", kv.second[0]);
          got[kv.first] = kv.second[0];
        }
        else { VT_CHECK(before_edges.at(kv.first) == kv.second, "query/existing-edge-changed", kv.first.first); }
      }
      for (const auto& kv : m.edges)
      {
        if (kv.first.first >= n || kv.first.second >= n)
        {
          VT_CHECK(got.count(kv.first), "query/missing-edge", kv.first.first, "->", kv.first.second);
        }
      }
    }
  }
  if (m.ambiguous) { Count("ambiguous_queries"); }
  // Independent optimum.
  std::vector<double> dist(m.nodes.size(), kInf);
  for (const int64_t s : si) { dist[static_cast<size_t>(s)] = 0; }
  for (bool changed = true; changed;)
  {
    changed = false;
    for (const auto& kv : m.edges)
    {
      const double c = dist[static_cast<size_t>(kv.first.first)] + kv.second;
      if (c < dist[static_cast<size_t>(kv.first.second)] - 1e-12) { dist[static_cast<size_t>(kv.first.second)] = c; changed = true; }
    }
  }
  double best = kInf;
  for (const int64_t x : gi) { best = std::min(best, dist[static_cast<size_t>(x)]); }
  const Path& p = r->Path();
  const double cost = r->PathCost();
  if (!m.ambiguous)
  {
    VT_CHECK(p.empty() == std::isinf(best), "query/solvability", "path of ", p.size(), " although the best cost is ", best);
    VT_CHECK(std::isinf(best) ? std::isinf(cost) : std::abs(cost - best) <= 1e-9 * (1 + best), "query/not-optimal",
             "cost ", cost, " best ", best, lazy ? " lazy" : "");
    Count(p.empty() ? "queries_unsolvable" : "queries_optimal");
  }
  if (p.empty())
  {
    VT_CHECK(std::isinf(cost), "query/empty-path-with-cost", cost);
    Nontrivial(Combine(w.salt, 1));
    return;
  }
  const auto contains = [](const Path& v, const S& s)
  { return std::any_of(v.begin(), v.end(), [&](const S& o) { return Same(o, s); }); };
  VT_CHECK(contains(starts, p.front()) && contains(goals, p.back()), "query/endpoints", p.front(), " ", p.back());
  double sum = 0;
  for (size_t i = 1; i < p.size(); i++)
  {
    VT_CHECK(w.Edge(p[i - 1], p[i]), "query/invalid-edge", p[i - 1], "->", p[i]);
    sum += w.Distance(p[i - 1], p[i]);
  }
  if (lazy) { VT_CHECK(std::abs(sum - cost) <= 1e-9 * (1 + sum), "query/cost-mismatch", sum, " ", cost); }
  else { VT_CHECK(cost >= sum - 1e-9 * (1 + sum), "query/cost-below-length", cost, " ", sum); }
  if (p.size() > 2) { Count("queries_through_roadmap"); }
  Nontrivial(Combine(w.salt, HashD(cost)));
}

// ---------------------------------------------------------------- update
template<bool UseOverlay>
void Update(Rng& rng, uint64_t)
{
  World w;
  Setup(rng, w);
  G g;
  const int64_t n = vt::Large() ? rng.Int(150, 500) : rng.Int(0, 40);
  for (int64_t i = 0; i < n; i++) { g.AddNode(w.Sample(rng.Next())); }
  if (n > 1)
  {
    for (int64_t k = rng.Int(0, 6 * n); k > 0; k--)
    {
      const int64_t a = rng.Int(0, n - 1), b = rng.Int(0, n - 1);
      // Whatever weight an edge had before, even one that is no distance.
      if (a != b) { g.AddEdgeBetweenNodes(a, b, rng.Chance(0.2) ? kInf : rng.Chance(0.1) ? -rng.Real(0, 9) : rng.Real(0, 9)); }
    }
  }
  const bool spoil = rng.Chance(0.1) && n > 1;
  if (spoil) { g.GetNodeMutable(rng.Int(0, n - 1)).AddOutEdge(sg::GraphEdge(0, n + 3, 1.0)); }
  for (int64_t i = 0; i < n; i++)
  {
    for (auto& e : g.GetNodeMutable(i).GetOutEdgesMutable()) { e.SetScratchpad(static_cast<uint64_t>(e.GetToIndex() * 3 + 1)); }
  }
  const G before = g;
  const auto snap = [](const auto& x)
  {
    std::vector<std::tuple<int64_t, int64_t, int64_t, uint64_t>> v;
    for (int64_t i = 0; i < x.Size(); i++)
    {
      for (const auto& e : x.GetNodeImmutable(i).GetOutEdgesImmutable()) { v.emplace_back(i, e.GetFromIndex(), e.GetToIndex(), e.GetScratchpad()); }
      for (const auto& e : x.GetNodeImmutable(i).GetInEdgesImmutable()) { v.emplace_back(-1 - i, e.GetFromIndex(), e.GetToIndex(), e.GetScratchpad()); }
    }
    return v;
  };
  const auto verify = [&](auto& x)
  {
    const auto shape = snap(x);
    const Thrown t = Catch([&] { prm::UpdateRoadMapEdges<S>(x, w.EdgeFn(), w.DistFn(), Par(w)); });
    VT_CHECK((t == Thrown::INVALID_ARGUMENT) == spoil && (spoil || t == Thrown::NONE), "update/linkage-check", spoil, " ", LastWhat());
    VT_CHECK(snap(x) == shape && x.Size() == n, "update/structure-changed", "");
    if (spoil) { Count("updates_rejected"); return; }
    uint64_t finite = 0, infinite = 0;
    for (int64_t i = 0; i < n; i++)
    {
      VT_CHECK(Same(At(x, i), At(before, i)), "update/value-changed", i);
      for (const bool out : {true, false})
      {
        const auto& list = out ? x.GetNodeImmutable(i).GetOutEdgesImmutable() : x.GetNodeImmutable(i).GetInEdgesImmutable();
        for (const auto& e : list)
        {
          const S &a = At(x, e.GetFromIndex()), &b = At(x, e.GetToIndex());
          const double want = w.Edge(a, b) ? w.Distance(a, b) : kInf;
          VT_CHECK(e.GetWeight() == want, "update/weight", out ? "out " : "in ", e.GetFromIndex(), "->", e.GetToIndex(),
                   " weight ", e.GetWeight(), " expected ", want);
          (std::isinf(want) ? infinite : finite)++;
        }
      }
    }
    Count("updated_finite", finite);
    Count("updated_infinite", infinite);
    if (finite + infinite > 0) { Nontrivial(Combine(w.salt, finite * 1000 + infinite)); }
  };
  if (UseOverlay)
  {
    Overlay ov(g);
    const auto base_edges = Edges(g);
    verify(ov);
    VT_CHECK(Edges(g) == base_edges, "update/overlay-changed-base", "");
  }
  else { verify(g); }
}
}  // namespace

int main(int argc, char** argv)
{
  return vt::Main(argc, argv, {
#if VT_PROP == 28
    {"build", 2500, 40000, Build},
    {"grow", 600, 15000, Grow},
    {"add-one", 3000, 30000, AddOne},
    {"bad-provider", 300, 3000, BadProvider},
    {"build-large", 24, 400, vt::LargeCase<Build>},
    {"grow-large", 12, 200, vt::LargeCase<Grow>},
    {"add-one-large", 60, 1000, vt::LargeCase<AddOne>},
#elif VT_PROP == 29
    {"query", 12000, 100000, Query},
    {"query-large", 80, 1500, vt::LargeCase<Query>},
#else
    {"update-graph", 2500, 30000, Update<false>},
    {"update-overlay", 1200, 30000, Update<true>},
    {"update-graph-large", 40, 800, vt::LargeCase<Update<false>>},
    {"update-overlay-large", 40, 800, vt::LargeCase<Update<true>>},
#endif
  });
}
