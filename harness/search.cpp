// Dijkstra (VT_PROP 16), A* on graphs (17) and A* on implicit state spaces (18).
// All weights are multiples of 1/4, so sums are exact and costs compare exactly.
#include "common.hpp"

#include <deque>

#include <common_robotics_utilities/simple_astar_search.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace sg = cru::simple_graph;
namespace gs = cru::simple_graph_search;
namespace as = cru::simple_astar_search;

namespace
{
bool g_large = false;

// The same scenario on graphs past any likely size threshold.
template<void (*Fn)(Rng&, uint64_t)>
void L(Rng& rng, uint64_t c)
{
  g_large = true;
  struct Off
  {
    ~Off() { g_large = false; }
  } off;
  Fn(rng, c);
  Count("large_cases");
}

constexpr double kInf = std::numeric_limits<double>::infinity();
struct Arc { int64_t from, to; double w; bool valid; uint64_t id; };

struct Problem
{
  int64_t n = 0;
  std::vector<Arc> arcs;
  std::string Describe() const
  {
    std::string s = Str(n, " nodes:");
    for (const auto& a : arcs)
    {
      s += Str(" ", a.from, ">", a.to, "=", a.w, a.valid ? "" : "x");
      if (s.size() > 900) { break; }
    }
    return s;
  }
  uint64_t Hash() const
  {
    uint64_t h = static_cast<uint64_t>(n);
    for (const auto& a : arcs)
    {
      h = Combine(h, static_cast<uint64_t>(a.from * 131 + a.to) ^ (static_cast<uint64_t>(std::min(a.w, 1e6) * 4) << 20));
    }
    return h;
  }
};

// Lookups over a finished problem.
struct Index
{
  std::vector<std::vector<size_t>> out, in;  // arc positions per node
  std::map<std::pair<int64_t, int64_t>, double> best, best_valid;
  std::vector<char> valid;  // by arc id
  explicit Index(const Problem& p)
      : out(static_cast<size_t>(p.n)), in(static_cast<size_t>(p.n)), valid(p.arcs.size(), 0)
  {
    for (size_t k = 0; k < p.arcs.size(); k++)
    {
      const Arc& a = p.arcs[k];
      out[static_cast<size_t>(a.from)].push_back(k);
      in[static_cast<size_t>(a.to)].push_back(k);
      Put(best, a);
      if (a.valid) { Put(best_valid, a); }
      valid.at(static_cast<size_t>(a.id)) = a.valid ? 1 : 0;
    }
  }
  static void Put(std::map<std::pair<int64_t, int64_t>, double>& m, const Arc& a)
  {
    const auto it = m.emplace(std::make_pair(a.from, a.to), a.w);
    if (!it.second) { it.first->second = std::min(it.first->second, a.w); }
  }
  double Best(int64_t from, int64_t to, bool use_validity) const
  {
    const auto& m = use_validity ? best_valid : best;
    const auto it = m.find({from, to});
    return it == m.end() ? kInf : it->second;
  }
};

double Weight(Rng& rng)
{
  switch (rng.Int(0, 6))
  {
    case 0: return 0.0;
    case 1: return static_cast<double>(rng.Int(0, 4000)) * 0.25;
    case 2: return 1.0;
    default: return static_cast<double>(rng.Int(0, 40)) * 0.25;
  }
}

Problem RandomProblem(Rng& rng, int64_t max_n, bool inf_edges)
{
  Problem p;
  p.n = g_large ? rng.Int(300, 2500) : rng.Int(1, max_n);
  const int shape = static_cast<int>(rng.Int(0, 3));
  const auto add = [&](int64_t a, int64_t b, double w)
  {
    if (a != b)
    {
      p.arcs.push_back({a, b, (inf_edges && rng.Chance(0.05)) ? kInf : w, !rng.Chance(0.15), p.arcs.size()});
    }
  };
  if (p.n > 1)
  {
    if (shape == 0)  // grid-like
    {
      const int64_t side = std::max<int64_t>(1, static_cast<int64_t>(std::sqrt(static_cast<double>(p.n))));
      for (int64_t i = 0; i < p.n; i++)
      {
        for (const int64_t d : {int64_t{1}, side})
        {
          if (i + d < p.n)
          {
            const double w = Weight(rng);
            add(i, i + d, w);
            add(i + d, i, rng.Chance(0.5) ? w : Weight(rng));
          }
        }
      }
    }
    else if (shape == 1)  // ladder where greedy expansion keeps finding better ways in
    {
      for (int64_t i = 0; i < p.n; i++)
      {
        for (int64_t j = i + 1; j < std::min(p.n, i + 5); j++)
        {
          add(i, j, static_cast<double>((j - i) * (j - i)) + 0.25 * static_cast<double>(rng.Int(0, 3)));
        }
      }
      if (rng.Chance(0.5)) { for (auto& a : p.arcs) { std::swap(a.from, a.to); } }
    }
    else
    {
      const size_t m = rng.Size(0, static_cast<size_t>(shape == 2 ? 2 * p.n : 5 * p.n));
      for (size_t k = 0; k < m; k++)
      {
        add(rng.Int(0, p.n - 1), rng.Int(0, p.n - 1), Weight(rng));  // parallel arcs allowed
      }
    }
    // Relabel so that index order tells nothing.
    std::vector<int64_t> perm(static_cast<size_t>(p.n));
    for (size_t i = 0; i < perm.size(); i++) { perm[i] = static_cast<int64_t>(i); }
    rng.Shuffle(perm);
    for (auto& a : p.arcs)
    {
      a.from = perm[static_cast<size_t>(a.from)];
      a.to = perm[static_cast<size_t>(a.to)];
    }
    rng.Shuffle(p.arcs);
    // Other magnitudes, all still exact: tiny, huge, and costs that differ only far down.
    const int unit = static_cast<int>(rng.Int(0, 9));
    for (auto& a : p.arcs)
    {
      if (unit < 2) { a.w = std::ldexp(a.w, -34); }
      else if (unit == 2) { a.w = std::ldexp(a.w, 20); }
      else if (unit < 5 && !g_large) { a.w += std::ldexp(static_cast<double>(rng.Int(0, 3)), -30); }
    }
  }
  return p;
}

// Label-correcting relaxation, independent of any priority queue.
std::vector<double> Distances(const Problem& p, const std::vector<std::pair<int64_t, double>>& sources, bool forward, bool use_validity)
{
  const Index index(p);
  std::vector<double> d(static_cast<size_t>(p.n), kInf);
  std::deque<size_t> work;
  std::vector<char> waiting(static_cast<size_t>(p.n), 0);
  const auto improve = [&](int64_t node, double cost)
  {
    const auto k = static_cast<size_t>(node);
    if (cost < d[k])
    {
      d[k] = cost;
      if (!waiting[k]) { work.push_back(k); waiting[k] = 1; }
    }
  };
  for (const auto& s : sources) { improve(s.first, s.second); }
  while (!work.empty())
  {
    const size_t u = work.front();
    work.pop_front();
    waiting[u] = 0;
    for (const size_t k : forward ? index.out[u] : index.in[u])
    {
      const Arc& a = p.arcs[k];
      if (use_validity && !a.valid) { continue; }
      improve(forward ? a.to : a.from, d[u] + a.w);
    }
  }
  return d;
}

using G = sg::Graph<int64_t>;
G MakeGraph(const Problem& p)
{
  G g(p.n);
  for (int64_t i = 0; i < p.n; i++) { g.AddNode(i); }
  for (const auto& a : p.arcs)
  {
    g.AddEdgeBetweenNodes(a.from, a.to, a.w);
    // The arc's identity rides in the scratchpad.
    g.GetNodeMutable(a.from).GetOutEdgesMutable().back().SetScratchpad(a.id);
    g.GetNodeMutable(a.to).GetInEdgesMutable().back().SetScratchpad(a.id);
  }
  return g;
}

template<typename GraphT>
void CheckDijkstra(const GraphT& g, const Problem& p, int64_t start, const std::string& ctx)
{
  const auto r = gs::PerformDijkstrasAlgorithm(g, start);
  // Distances run from every node to the start.
  const auto want = Distances(p, {{start, 0.0}}, false, false);
  const Index index(p);
  VT_CHECK(r.Size() == p.n, "dijkstra/size", r.Size(), ctx);
  for (int64_t i = 0; i < p.n; i++)
  {
    const double d = r.GetNodeDistance(i);
    VT_CHECK(d == want[static_cast<size_t>(i)], "dijkstra/distance", "node ", i, " to ", start, " reported ", d,
             " shortest ", want[static_cast<size_t>(i)], ctx);
    const int64_t prev = r.GetPreviousIndex(i);
    if (i == start) { VT_CHECK(prev == start, "dijkstra/previous", "start's previous is ", prev, ctx); continue; }
    if (std::isinf(d)) { VT_CHECK(prev == -1, "dijkstra/previous", "unreachable node ", i, " has previous ", prev, ctx); continue; }
    if (g_large && i % 7 != 0) { continue; }
    // Walk home, adding up the cheapest arcs.
    int64_t at = i;
    double total = 0;
    for (int64_t steps = 0; at != start; steps++)
    {
      VT_CHECK(steps <= p.n, "dijkstra/previous-cycle", "previous indices from ", i, " never reach ", start, ctx);
      const int64_t next = r.GetPreviousIndex(at);
      const double best = index.Best(at, next, false);
      VT_CHECK(!std::isinf(best), "dijkstra/previous-not-an-edge", at, "->", next, ctx);
      total += best;
      at = next;
    }
    VT_CHECK(total == d, "dijkstra/previous-cost", "walk home from ", i, " costs ", total, " reported ", d, ctx);
    Count("distances_checked");
  }
}

void Dijkstra(Rng& rng, uint64_t)
{
  const Problem p = RandomProblem(rng, rng.Chance(0.05) ? 150 : 25, true);
  const G g = MakeGraph(p);
  const int64_t start = rng.Int(0, p.n - 1);
  const std::string ctx = Str(" start ", start, " ", p.Describe());
  CheckDijkstra(g, p, start, ctx);
  // Through an overlay that adds arcs on top.
  Problem q = p;
  sg::NonOwningGraphOverlay<int64_t, G> ov(g);
  if (rng.Chance(0.5)) { ov.AddNode(q.n); q.n++; }
  if (q.n > 1)
  {
    for (size_t k = rng.Size(0, 6); k > 0; k--)
    {
      const int64_t a = rng.Int(0, q.n - 1), b = rng.Int(0, q.n - 1);
      if (a == b) { continue; }
      const double w = Weight(rng);
      ov.AddEdgeBetweenNodes(a, b, w);
      q.arcs.push_back({a, b, w, true, q.arcs.size()});
    }
  }
  CheckDijkstra(ov, q, start, " overlay" + ctx);
  const int64_t bad = rng.Chance(0.5) ? rng.Int(-3, -1) : p.n + rng.Int(0, 3);
  VT_CHECK(Catch([&] { gs::PerformDijkstrasAlgorithm(g, bad); }) != Thrown::NONE, "dijkstra/bad-start", bad, ctx);
  Nontrivial(Combine(p.Hash(), static_cast<uint64_t>(start)));
  Sample(ctx);
}

enum class H { ZERO, EXACT, SCALED, INCONSISTENT, WILD };

struct Query
{
  std::vector<std::pair<int64_t, double>> starts;
  std::vector<int64_t> goals;
  H h = H::ZERO;
  uint64_t hseed = 0;
  bool limit = true;
};

Query RandomQuery(Rng& rng, const Problem& p, bool start_costs)
{
  Query q;
  for (size_t k = rng.Size(1, 3); k > 0; k--)
  {
    q.starts.emplace_back(rng.Int(0, p.n - 1), start_costs ? 0.25 * static_cast<double>(rng.Int(0, 40)) : 0.0);
  }
  for (size_t k = !g_large && rng.Chance(0.05) ? 0 : rng.Size(1, 3); k > 0; k--) { q.goals.push_back(rng.Int(0, p.n - 1)); }
  // Re-expansion under inconsistent heuristics can be exponential: small graphs only.
  q.h = static_cast<H>(rng.Int(0, g_large ? 2 : 4));
  q.hseed = rng.Next();
  q.limit = rng.Chance(0.5);
  return q;
}

// Heuristic value for a node whose true remaining cost is togo.
double Heuristic(const Query& q, int64_t node, double togo)
{
  const uint64_t r = Combine(q.hseed, static_cast<uint64_t>(node));
  switch (q.h)
  {
    case H::ZERO: return 0.0;
    // All-infinite values order nothing: fine on small graphs, slow on large ones.
    case H::EXACT: return g_large && std::isinf(togo) ? 0.0 : togo;
    case H::SCALED: return std::isinf(togo) ? 1.0 : 0.5 * togo;
    case H::INCONSISTENT: return std::isinf(togo) ? 0.0 : togo * (0.25 * static_cast<double>(r % 5));
    default: return static_cast<double>(r % 400) * 0.25;
  }
}

// The oracle for any A* result.
void CheckResult(const std::vector<int64_t>& path, double cost, const Problem& p, const Query& q, bool use_validity,
                 const std::string& ctx)
{
  const auto is_goal = [&](int64_t i) { return std::find(q.goals.begin(), q.goals.end(), i) != q.goals.end(); };
  double start_goal = kInf;
  for (const auto& s : q.starts) { if (is_goal(s.first)) { start_goal = std::min(start_goal, s.second); } }
  const auto d = Distances(p, q.starts, true, use_validity);
  double best = kInf;
  for (const int64_t g : q.goals) { best = std::min(best, d[static_cast<size_t>(g)]); }
  if (std::isinf(best))
  {
    VT_CHECK(path.empty() && std::isinf(cost) && cost > 0, "astar/solution-where-none", "path of ", path.size(), " cost ", cost, ctx);
    Count("unsolvable");
    return;
  }
  VT_CHECK(!path.empty(), "astar/missed-solution", "no path although one costs ", best, ctx);
  VT_CHECK(is_goal(path.back()), "astar/not-a-goal", "path ends at ", path.back(), ctx);
  if (!std::isinf(start_goal))
  {
    // A start that already satisfies the goal is its own solution.
    VT_CHECK(path.size() == 1 && cost == start_goal, "astar/start-is-goal", "path ", VecStr(path), " cost ", cost,
             " expected the start that costs ", start_goal, ctx);
    Count("start_is_goal");
    return;
  }
  const Index index(p);
  double total = kInf;
  for (const auto& s : q.starts) { if (s.first == path.front()) { total = std::min(total, s.second); } }
  VT_CHECK(!std::isinf(total), "astar/not-a-start", "path begins at ", path.front(), ctx);
  for (size_t i = 1; i < path.size(); i++)
  {
    const double w = index.Best(path[i - 1], path[i], use_validity);
    VT_CHECK(!std::isinf(w), "astar/invalid-edge", path[i - 1], "->", path[i], " is not a usable edge;", ctx);
    total += w;
  }
  VT_CHECK(total <= cost, "astar/cost-understated", "path costs ", total, " reported ", cost, ctx);
  if (q.h != H::WILD)
  {
    VT_CHECK(cost == best, "astar/not-optimal", "reported ", cost, " optimal ", best, " path ", VecStr(path), ctx);
    VT_CHECK(total == cost, "astar/cost-mismatch", "path costs ", total, " reported ", cost, ctx);
    Count("optimal_checked");
    if (path.size() > 2) { Count("long_paths"); }
  }
  Count("solved");
}

std::string QueryStr(const Query& q, const Problem& p)
{
  std::string s = Str(" h", static_cast<int>(q.h), " limit ", q.limit, " starts");
  for (const auto& x : q.starts) { s += Str(" ", x.first, "@", x.second); }
  return s + " goals " + VecStr(q.goals) + " " + p.Describe();
}

void GraphAstar(Rng& rng, uint64_t c)
{
  const int variant = static_cast<int>(c % 4);
  const Problem p = RandomProblem(rng, rng.Chance(0.05) ? 100 : 20, variant == 3);
  const G g = MakeGraph(p);
  const Query q = RandomQuery(rng, p, variant == 0);
  const std::string ctx = Str(" variant ", variant, QueryStr(q, p));
  std::vector<int64_t> starts;
  for (const auto& s : q.starts) { starts.push_back(s.first); }
  std::map<int64_t, std::vector<double>> togo;
  for (int64_t t = 0; t < p.n; t++) { if (std::find(q.goals.begin(), q.goals.end(), t) != q.goals.end()) { togo[t] = Distances(p, {{t, 0.0}}, false, variant != 3); } }
  const auto best_togo = [&](int64_t i)
  {
    double b = kInf;
    for (const auto& kv : togo) { b = std::min(b, kv.second[static_cast<size_t>(i)]); }
    return b;
  };
  const Index index(p);
  const auto arc_valid = [&](const sg::GraphEdge& e) { return index.valid.at(static_cast<size_t>(e.GetScratchpad())) != 0; };
  gs::AstarIndexResult r;
  if (variant == 0)
  {
    gs::IndexStatesWithCosts sc;
    for (const auto& s : q.starts) { sc.emplace_back(s.first, s.second); }
    r = gs::PerformLazyAstarSearch<G>(
        g, sc, [&](const G&, int64_t i) { return togo.count(i) > 0; },
        [&](const G&, const sg::GraphEdge& e) { return arc_valid(e); },
        [&](const G&, const sg::GraphEdge& e) { return e.GetWeight(); },
        [&](const G&, int64_t i) { return Heuristic(q, i, best_togo(i)); }, q.limit);
    CheckResult(r.Path(), r.PathCost(), p, q, true, ctx);
  }
  else if (variant == 1)
  {
    r = gs::PerformLazyAstarSearch<G>(
        g, starts, q.goals,
        [&](const G&, const sg::GraphEdge& e) { return arc_valid(e); },
        [&](const G&, const sg::GraphEdge& e) { return e.GetWeight(); },
        [&](const G&, int64_t i, int64_t t) { return Heuristic(q, i, togo.at(t)[static_cast<size_t>(i)]); }, q.limit);
    CheckResult(r.Path(), r.PathCost(), p, q, true, ctx);
  }
  else if (variant == 2)
  {
    // Value-based functions cannot tell parallel arcs apart: fold them.
    Problem f = p;
    std::map<std::pair<int64_t, int64_t>, std::pair<double, bool>> pairs;
    for (const auto& a : p.arcs) { pairs.emplace(std::make_pair(a.from, a.to), std::make_pair(a.w, a.valid)); }
    for (auto& a : f.arcs) { a.w = pairs.at({a.from, a.to}).first; a.valid = pairs.at({a.from, a.to}).second; }
    for (auto& kv : togo) { kv.second = Distances(f, {{kv.first, 0.0}}, false, true); }
    r = gs::PerformLazyAstarSearch<int64_t, G>(
        g, starts, q.goals,
        [&](const int64_t& a, const int64_t& b) { return pairs.at({a, b}).second; },
        [&](const int64_t& a, const int64_t& b) { return pairs.at({a, b}).first; },
        [&](const int64_t& i, const int64_t& t) { return Heuristic(q, i, togo.at(t)[static_cast<size_t>(i)]); }, q.limit);
    CheckResult(r.Path(), r.PathCost(), f, q, true, ctx);
  }
  else
  {
    r = gs::PerformAstarSearch<int64_t, G>(
        g, starts, q.goals,
        [&](const int64_t& i, const int64_t& t) { return Heuristic(q, i, togo.at(t)[static_cast<size_t>(i)]); }, q.limit);
    CheckResult(r.Path(), r.PathCost(), p, q, false, ctx);
  }
  Nontrivial(Combine(Combine(p.Hash(), HashStr(VecStr(starts) + VecStr(q.goals))), static_cast<uint64_t>(q.h)));
  Sample(ctx);
}

void GraphAstarRejects(Rng& rng, uint64_t)
{
  const Problem p = RandomProblem(rng, 8, false);
  const G g = MakeGraph(p);
  const int64_t bad = rng.Chance(0.5) ? rng.Int(-3, -1) : p.n + rng.Int(0, 3);
  const auto run = [&](std::vector<int64_t> s, std::vector<int64_t> t)
  {
    return Catch([&] { gs::PerformAstarSearch<int64_t, G>(g, s, t, [](const int64_t&, const int64_t&) { return 0.0; }, rng.Chance(0.5)); });
  };
  VT_CHECK(run({}, {0}) != Thrown::NONE, "astar/no-starts", "accepted");
  VT_CHECK(run({0, bad}, {0}) != Thrown::NONE, "astar/bad-start", "accepted ", bad);
  VT_CHECK(run({0}, {0, bad}) != Thrown::NONE, "astar/bad-goal", "accepted ", bad);
  Count("rejections", 3);
  Nontrivial(Combine(p.Hash(), static_cast<uint64_t>(bad + 50)));
}

// A state type with its own hash and equality: only id matters, tag is noise.
struct Wide
{
  int64_t id = 0;
  int64_t tag = 0;
};
struct WideHash { size_t modulus = 1000; size_t operator()(const Wide& w) const { return static_cast<size_t>(w.id) % modulus; } };
struct WideEq { bool operator()(const Wide& a, const Wide& b) const { return a.id == b.id; } };

template<typename T> T ToState(int64_t i, uint64_t salt);
template<> int64_t ToState<int64_t>(int64_t i, uint64_t) { return i; }
template<> std::string ToState<std::string>(int64_t i, uint64_t) { return "state number " + std::to_string(i) + " with a long name"; }
template<> Wide ToState<Wide>(int64_t i, uint64_t salt) { return Wide{i, static_cast<int64_t>(salt % 97)}; }
int64_t FromState(const int64_t& s) { return s; }
int64_t FromState(const std::string& s) { return std::atoll(s.c_str() + 13); }
int64_t FromState(const Wide& w) { return w.id; }

template<typename T, typename Container, typename Hash, typename Eq>
void GenericAstar(Rng& rng, uint64_t c)
{
  const bool split = (c % 2) == 1;
  Problem p = RandomProblem(rng, rng.Chance(0.05) ? 120 : 20, false);
  std::map<std::pair<int64_t, int64_t>, std::pair<double, bool>> pairs;
  if (split)
  {
    for (const auto& a : p.arcs) { pairs.emplace(std::make_pair(a.from, a.to), std::make_pair(a.w, a.valid)); }
    for (auto& a : p.arcs) { a.w = pairs.at({a.from, a.to}).first; a.valid = pairs.at({a.from, a.to}).second; }
  }
  const Query q = RandomQuery(rng, p, true);
  const std::string ctx = Str(split ? " split" : " joint", QueryStr(q, p));
  std::vector<std::pair<int64_t, double>> goal_sources;
  for (const int64_t g : q.goals) { goal_sources.emplace_back(g, 0.0); }
  const auto togo = Distances(p, goal_sources, false, true);
  as::StatesWithCosts<T> starts;
  for (const auto& s : q.starts) { starts.emplace_back(ToState<T>(s.first, rng.Next()), s.second); }
  const Index index(p);
  Hash hasher{};
  if constexpr (std::is_same<T, Wide>::value) { hasher.modulus = g_large ? 1000 : rng.Pick<size_t>({1, 3, 1000}); }
  uint64_t salt = rng.Next();
  const auto goal_fn = [&](const T& s) { return std::find(q.goals.begin(), q.goals.end(), FromState(s)) != q.goals.end(); };
  const auto h_fn = [&](const T& s) { return Heuristic(q, FromState(s), togo[static_cast<size_t>(FromState(s))]); };
  as::AstarResult<T, Container> r;
  if (!split)
  {
    r = as::PerformAstarSearch<T, Container, Hash, Eq>(
        starts, goal_fn,
        [&](const T& s)
        {
          as::StatesWithCosts<T> out;
          for (const size_t k : index.out[static_cast<size_t>(FromState(s))])
          {
            const Arc& a = p.arcs[k];
            if (a.valid) { out.emplace_back(ToState<T>(a.to, salt++), a.w); }
          }
          return out;
        },
        h_fn, q.limit, hasher, Eq());
  }
  else
  {
    r = as::PerformAstarSearch<T, Container, Hash, Eq>(
        starts, goal_fn,
        [&](const T& s)
        {
          Container out;
          for (const size_t k : index.out[static_cast<size_t>(FromState(s))]) { out.push_back(ToState<T>(p.arcs[k].to, salt++)); }
          return out;
        },
        [&](const T& a, const T& b) { return pairs.at({FromState(a), FromState(b)}).second; },
        [&](const T& a, const T& b) { return pairs.at({FromState(a), FromState(b)}).first; },
        h_fn, q.limit, hasher, Eq());
  }
  std::vector<int64_t> path;
  for (const auto& s : r.Path()) { path.push_back(FromState(s)); }
  CheckResult(path, r.PathCost(), p, q, true, ctx);
  Nontrivial(Combine(p.Hash(), HashStr(ctx.substr(0, 60))));
  Sample(ctx);
}

void GenericRejects(Rng& rng, uint64_t)
{
  const double neg = -rng.Real(1e-9, 10.0);
  VT_CHECK(Catch([&] { as::StateWithCost<int64_t> s(1, neg); }) != Thrown::NONE, "astar/negative-cost", "accepted ", neg);
  VT_CHECK(Catch([&] { as::AstarResult<int64_t> s({1, 2}, kInf); }) != Thrown::NONE, "astar/infinite-result", "accepted");
  VT_CHECK(Catch([&] {
    as::PerformAstarSearch<int64_t>({}, [](const int64_t&) { return true; }, [](const int64_t&) { return as::StatesWithCosts<int64_t>(); },
                                    [](const int64_t&) { return 0.0; });
  }) != Thrown::NONE, "astar/no-starts", "accepted");
  Count("rejections", 3);
  Nontrivial(static_cast<uint64_t>(-neg * 1e9));
}
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 16
  return Main(argc, argv, {{"dijkstra", 4000, 120000, Dijkstra}, {"dijkstra_large", 24, 400, L<Dijkstra>}});
#elif VT_PROP == 17
  return Main(argc, argv, {{"graph_astar", 8000, 200000, GraphAstar},
                           {"graph_astar_large", 32, 600, L<GraphAstar>}, {"rejects", 200, 2000, GraphAstarRejects}});
#else
  return Main(argc, argv, {{"int", 4000, 80000, GenericAstar<int64_t, std::vector<int64_t>, std::hash<int64_t>, std::equal_to<int64_t>>},
                           {"int_large", 24, 400, L<GenericAstar<int64_t, std::vector<int64_t>, std::hash<int64_t>, std::equal_to<int64_t>>>},
                           {"custom_large", 16, 300, L<GenericAstar<Wide, std::vector<Wide>, WideHash, WideEq>>},
                           {"string", 1500, 30000, GenericAstar<std::string, std::deque<std::string>, std::hash<std::string>, std::equal_to<std::string>>},
                           {"custom", 3000, 60000, GenericAstar<Wide, std::vector<Wide>, WideHash, WideEq>},
                           {"rejects", 100, 1000, GenericRejects}});
#endif
}
