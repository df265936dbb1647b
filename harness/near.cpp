// Brute-force oracles for: k nearest neighbours (VT_PROP 19), Hausdorff distance
// and distance matrices (20), dynamic time warping (21), hierarchical
// clustering (22), k-means clustering (23).
#include "common.hpp"

#include <deque>
#include <numeric>

#ifdef _OPENMP
#include <omp.h>
#endif

#include <Eigen/Geometry>
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/simple_dtw.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>

#ifdef VT_OMP_SHIM
extern "C" void vt_omp_configure(int, int, int, int, uint64_t);
#endif

using namespace vt;
namespace cru = common_robotics_utilities;
using cru::parallelism::DegreeOfParallelism;

namespace
{
constexpr double kInf = std::numeric_limits<double>::infinity();
bool g_large = false;  // a few cases with thousands of items

DegreeOfParallelism Par(int threads)
{
  return threads == 0 ? DegreeOfParallelism::None() : DegreeOfParallelism(threads);
}

// Runs fn either directly or on the threads of an enclosing parallel region, as
// user code that is itself parallel would.
template<typename Fn>
void Around(bool nested, Fn&& fn)
{
#ifdef _OPENMP
  if (nested)
  {
    std::atomic<bool> failed(false);
#pragma omp parallel num_threads(2)
    {
      try { fn(); }
      catch (const CaseFailed&) { failed.store(true); }
      catch (const std::exception& e) { Record("unexpected-exception/nested", e.what()); failed.store(true); }
    }
    if (failed.load()) { throw CaseFailed(); }
    return;
  }
#endif
  (void)nested;
  fn();
}

struct Point
{
  double x = 0, y = 0;
  int64_t id = 0;
};

// Distances on a coarse lattice tie often.
std::vector<Point> Points(Rng& rng, size_t n)
{
  const int kind = static_cast<int>(rng.Int(0, 3));
  std::vector<Point> v;
  for (size_t i = 0; i < n; i++)
  {
    Point p;
    if (kind == 0) { p.x = static_cast<double>(rng.Int(-3, 3)); p.y = static_cast<double>(rng.Int(-3, 3)); }
    else if (kind == 1) { p.x = 7; p.y = -1; }
    else if (kind == 2) { p.x = rng.Real(-10, 10); p.y = rng.Real(-10, 10); }
    else { p.x = static_cast<double>(i); p.y = 0; }
    p.id = static_cast<int64_t>(i);
    v.push_back(p);
  }
  if (kind == 3 && rng.Chance(0.5)) { std::reverse(v.begin(), v.end()); }
  return v;
}

double Dist(const Point& a, const Point& b)
{
  return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y));
}

std::string PointsStr(const std::vector<Point>& v)
{
  std::string s;
  for (size_t i = 0; i < v.size() && i < 20; i++) { s += Str(" (", v[i].x, ",", v[i].y, ")"); }
  return s;
}

uint64_t PointsHash(const std::vector<Point>& v)
{
  uint64_t h = v.size();
  for (const auto& p : v)
  {
    uint64_t a, b;
    std::memcpy(&a, &p.x, 8);
    std::memcpy(&b, &p.y, 8);
    h = Combine(h, Combine(a, b));
  }
  return h;
}

// ---------------------------------------------------------------- KNN
template<typename Container>
void Knn(Rng& rng, uint64_t)
{
  namespace knn = cru::simple_knearest_neighbors;
  const std::vector<Point> pts = Points(rng, g_large ? rng.Size(1000, 20000) : rng.Chance(0.1) ? rng.Size(50, 400) : rng.Size(0, 40));
  const Container items(pts.begin(), pts.end());
  Point q;
  if (!pts.empty() && rng.Chance(0.4)) { q = rng.Pick(pts); }
  else { q.x = rng.Real(-10, 10); q.y = rng.Real(-10, 10); }
  size_t lo = 0, hi = pts.size();
  if (rng.Chance(0.7))
  {
    lo = rng.Size(0, pts.size());
    hi = rng.Size(lo, pts.size());
  }
  const int64_t n = static_cast<int64_t>(hi - lo);
  const int64_t k = rng.Chance(0.3) ? n + rng.Int(-2, 2) : rng.Int(0, std::max<int64_t>(1, n));
  const bool far = rng.Chance(0.1);  // some items infinitely far away
  // Sometimes any function at all: direction-dependent, negative, or almost tied.
  const int odd = rng.Chance(0.35) ? static_cast<int>(rng.Int(1, 4)) : 0;
  const uint64_t salt = rng.Next();
  q.id = -1;
  if (odd) { Count("odd_distance_functions"); }
  const bool nested = rng.Chance(0.25);
  const bool full = lo == 0 && hi == pts.size();
  const std::function<double(const Point&, const Point&)> fn = [&](const Point& a, const Point& b)
  {
    if (far && a.id % 3 == 0) { return kInf; }
    if (odd)
    {
      const double h = static_cast<double>(Combine(salt, Combine(static_cast<uint64_t>(a.id), static_cast<uint64_t>(b.id))) % 1000);
      return odd == 1 ? 1.0 + h * 0x1p-50 : odd == 2 ? h - 500.0 : odd == 3 ? h * 5e-324 : 1e300 + h * 1e290;
    }
    return Dist(a, b);
  };
  std::vector<double> want;
  for (size_t i = lo; i < hi; i++) { want.push_back(fn(pts[i], q)); }
  std::sort(want.begin(), want.end());
  for (const int threads : g_large ? std::vector<int>{0, 3, 16} : std::vector<int>{0, 1, 2, 5, 8, 16})
  {
    const std::string ctx = Str(n, " items from ", lo, ", K ", k, ", ", threads, " threads", nested ? " inside a parallel region" : "");
    for (int entry = 0; entry < 4; entry++)
    {
      if (entry >= 2 && !full) { continue; }
      Around(nested, [&] {
        std::vector<knn::IndexAndDistance> got;
        const Thrown t = Catch([&] {
          if (entry == 0) { got = knn::GetKNearestNeighborsInRange<Point, Point, Container>(items, lo, hi, q, fn, k, Par(threads)); }
          else if (entry == 1)
          {
            got = threads == 0 ? knn::GetKNearestNeighborsInRangeSerial<Point, Point, Container>(items, lo, hi, q, fn, k)
                               : knn::GetKNearestNeighborsInRangeParallel<Point, Point, Container>(items, lo, hi, q, fn, k, Par(threads));
          }
          else if (entry == 2) { got = knn::GetKNearestNeighbors<Point, Point, Container>(items, q, fn, k, Par(threads)); }
          else
          {
            got = threads == 0 ? knn::GetKNearestNeighborsSerial<Point, Point, Container>(items, q, fn, k)
                               : knn::GetKNearestNeighborsParallel<Point, Point, Container>(items, q, fn, k, Par(threads));
          }
        });
        if (k < 0)
        {
          VT_CHECK(t != Thrown::NONE, "knn/negative-k", ctx);
          return;
        }
        VT_CHECK(t == Thrown::NONE, "knn/threw", ctx, ": ", LastWhat());
        const size_t expect = static_cast<size_t>(std::min<int64_t>(k, n));
        VT_CHECK(got.size() == expect, "knn/count", got.size(), " results; ", ctx);
        std::vector<double> dists;
        std::set<int64_t> seen;
        for (const auto& r : got)
        {
          VT_CHECK(r.Index() >= static_cast<int64_t>(lo) && r.Index() < static_cast<int64_t>(hi), "knn/index",
                   "index ", r.Index(), "; ", ctx);
          VT_CHECK(seen.insert(r.Index()).second, "knn/duplicate", "index ", r.Index(), " twice; ", ctx);
          VT_CHECK(r.Distance() == fn(pts[static_cast<size_t>(r.Index())], q), "knn/distance", "index ", r.Index(), " distance ", r.Distance(), "; ", ctx);
          dists.push_back(r.Distance());
        }
        std::sort(dists.begin(), dists.end());
        for (size_t i = 0; i < dists.size(); i++)
        {
          VT_CHECK(dists[i] == want[i], "knn/not-nearest", "neighbour ", i, " at ", dists[i], ", nearest is at ", want[i], "; ", ctx);
        }
        Count("knn_queries");
        if (threads > 1 && k < n && k > 0) { Count("knn_merges"); }
      });
    }
  }
  // Bad ranges.
  VT_CHECK(Catch([&] { knn::GetKNearestNeighborsInRange<Point, Point, Container>(items, 0, pts.size() + 1, q, fn, 1, Par(rng.Chance(0.5) ? 4 : 0)); }) != Thrown::NONE,
           "knn/bad-range", "range past the end accepted");
  VT_CHECK(Catch([&] { knn::GetKNearestNeighborsInRange<Point, Point, Container>(items, 1, 0, q, fn, 1, Par(rng.Chance(0.5) ? 4 : 0)); }) != Thrown::NONE,
           "knn/bad-range", "inverted range accepted");
  Nontrivial(Combine(PointsHash(pts), static_cast<uint64_t>(k + 3) * 1000 + lo));
  Sample(Str(n, " items, K ", k, PointsStr(pts)));
}

// ---------------------------------------------------------------- Hausdorff
void Hausdorff(Rng& rng, uint64_t)
{
  namespace hd = cru::simple_hausdorff_distance;
  const auto size = [&] { return g_large ? rng.Size(300, 1200) : rng.Chance(0.1) ? rng.Size(40, 200) : rng.Size(1, 20); };
  const std::vector<Point> a = Points(rng, size());
  const std::vector<Point> b = Points(rng, size());
  // Sometimes any non-negative function, so that rows, columns and everything can be infinitely far apart.
  const bool table = rng.Chance(0.4);
  const bool near_ties = rng.Chance(0.3);
  const uint64_t salt = rng.Next();
  const uint64_t inf_pairs = rng.Pick<uint64_t>({0, 10, 60, 95, 100}), inf_rows = rng.Pick<uint64_t>({0, 20});
  const auto between = [&](const Point& p, size_t j) -> double
  {
    if (!table) { return Dist(p, b[j]); }
    const uint64_t h = Combine(salt, Combine(static_cast<uint64_t>(p.id), j));
    if (Combine(salt, static_cast<uint64_t>(p.id)) % 100 < inf_rows || Combine(h, 1) % 100 < inf_pairs) { return kInf; }
    return near_ties ? 1.0 + static_cast<double>(h % 50) * 0x1p-50 : static_cast<double>(h % 50);
  };
  std::vector<int> bi;  // different element type on the other side
  for (size_t i = 0; i < b.size(); i++) { bi.push_back(static_cast<int>(i)); }
  const std::function<double(const Point&, const int&)> fn = [&](const Point& p, const int& i) { return between(p, static_cast<size_t>(i)); };
  const std::function<double(const Point&, const Point&)> self_fn = Dist;
  double want = 0;
  for (const auto& p : a)
  {
    double m = kInf;
    for (size_t j = 0; j < b.size(); j++) { m = std::min(m, between(p, j)); }
    want = std::max(want, m);
  }
  const bool nested = rng.Chance(0.25);
  if (std::isinf(want)) { Count("infinite_hausdorff"); }
  for (const int threads : g_large ? std::vector<int>{0, 7} : std::vector<int>{0, 1, 2, 7, 16})
  {
    const std::string ctx = Str(a.size(), " x ", b.size(), " threads ", threads);
    Around(nested, [&] {
      VT_CHECK((hd::ComputeDistance<Point, int>(a, bi, fn, Par(threads)) == want), "hausdorff/distance", ctx, " expected ", want);
      const Eigen::MatrixXd m = cru::math::BuildPairwiseDistanceMatrix<Point, int>(a, bi, fn, Par(threads));
      VT_CHECK(m.rows() == static_cast<ssize_t>(a.size()) && m.cols() == static_cast<ssize_t>(b.size()), "matrix/shape", ctx);
      for (size_t i = 0; i < a.size(); i++)
      {
        for (size_t j = 0; j < b.size(); j++)
        {
          VT_CHECK(m(static_cast<ssize_t>(i), static_cast<ssize_t>(j)) == between(a[i], j), "matrix/entry", i, ",", j, " ", ctx);
        }
      }
      VT_CHECK((hd::ComputeDistance<Point, int>(a, bi, m, Par(threads)) == want), "hausdorff/matrix-distance", ctx, " expected ", want);
      const Eigen::MatrixXd s = cru::math::BuildPairwiseDistanceMatrix<Point>(a, self_fn, Par(threads));
      VT_CHECK(s.rows() == static_cast<ssize_t>(a.size()) && s.cols() == s.rows(), "matrix/shape", ctx);
      for (size_t i = 0; i < a.size(); i++)
      {
        for (size_t j = 0; j < a.size(); j++)
        {
          VT_CHECK(s(static_cast<ssize_t>(i), static_cast<ssize_t>(j)) == Dist(a[i], a[j]), "matrix/self-entry", i, ",", j, " ", ctx);
        }
      }
      VT_CHECK((hd::ComputeDistance<Point, Point>(a, a, self_fn, Par(threads)) == 0.0), "hausdorff/self", ctx);
      Count("hausdorff_distances");
    });
    const auto reject = [&](const std::vector<Point>& x, const std::vector<int>& y, const std::string& what)
    {
      VT_CHECK(Catch([&] { hd::ComputeDistance<Point, int>(x, y, fn, Par(threads)); }) != Thrown::NONE, "hausdorff/accepts", what, " ", ctx);
    };
    reject({}, bi, "empty first set");
    reject(a, {}, "empty second set");
    const Eigen::MatrixXd wrong(static_cast<ssize_t>(a.size()) + 1, static_cast<ssize_t>(b.size()));
    VT_CHECK(Catch([&] { hd::ComputeDistance<Point, int>(a, bi, wrong, Par(threads)); }) != Thrown::NONE, "hausdorff/accepts", "wrong matrix ", ctx);
  }
  Nontrivial(Combine(PointsHash(a), PointsHash(b)));
  Sample(Str(PointsStr(a), " |", PointsStr(b)));
}

// ---------------------------------------------------------------- DTW
void Dtw(Rng& rng, uint64_t)
{
  namespace dtw = cru::simple_dtw;
  const auto seq = [&](size_t n)
  {
    std::vector<int64_t> v;
    const int64_t span = rng.Pick<int64_t>({1, 3, 100});
    for (size_t i = 0; i < n; i++) { v.push_back(rng.Int(-span, span)); }
    return v;
  };
  dtw::SimpleDTW<int64_t, int64_t> reused(rng.Int(0, 12), rng.Int(0, 12));
  for (int round = 0; round < 4; round++)
  {
    const size_t cap = g_large ? 400 : 14;
    const std::vector<int64_t> a = seq(rng.Size(1, cap)), b = seq(rng.Size(1, cap));
    const int kind = static_cast<int>(rng.Int(0, 2));
    std::vector<double> table(a.size() * b.size());
    for (auto& x : table) { x = static_cast<double>(rng.Int(0, 4)); }
    // Exact sums all the same: huge, tiny and almost equal costs, and pairs that cannot be aligned.
    const double unit = rng.Pick(std::vector<double>{1, 1, 1, 0x1p-30, 0x1p30}), offset = rng.Chance(0.3) ? 0x1p10 / unit : 0.0;
    const double blocked = rng.Pick(std::vector<double>{0, 0, 0.05, 0.4});
    if (kind == 2)
    {
      for (auto& x : table) { x = rng.Chance(blocked) ? kInf : (x + (unit < 1 ? offset : 0.0)) * unit; }
    }
    std::vector<int64_t> ai(a.size()), bj(b.size());
    std::iota(ai.begin(), ai.end(), 0);
    std::iota(bj.begin(), bj.end(), 0);
    const std::function<double(const int64_t&, const int64_t&)> fn = [&](const int64_t& i, const int64_t& j)
    {
      const double d = static_cast<double>(a[static_cast<size_t>(i)] - b[static_cast<size_t>(j)]);
      return kind == 0 ? std::abs(d) : kind == 1 ? d * d : table[static_cast<size_t>(i) * b.size() + static_cast<size_t>(j)];
    };
    // Cheapest monotone alignment, by relaxing forward from the first pair.
    const size_t n = a.size(), m = b.size();
    std::vector<std::vector<double>> best(n, std::vector<double>(m, kInf));
    best[0][0] = fn(0, 0);
    for (size_t i = 0; i < n; i++)
    {
      for (size_t j = 0; j < m; j++)
      {
        for (const auto& step : {std::make_pair(1, 0), std::make_pair(0, 1), std::make_pair(1, 1)})
        {
          const size_t x = i + static_cast<size_t>(step.first), y = j + static_cast<size_t>(step.second);
          if (x < n && y < m)
          {
            best[x][y] = std::min(best[x][y], best[i][j] + fn(static_cast<int64_t>(x), static_cast<int64_t>(y)));
          }
        }
      }
    }
    const double want = best[n - 1][m - 1];
    const std::string ctx = Str("kind ", kind, " ", VecStr(a), " ", VecStr(b), kind == 2 ? VecStr(table, 200) : "");
    const double fresh = dtw::EvaluateWarpingCost<int64_t, int64_t>(ai, bj, fn);
    VT_CHECK(fresh == want, "dtw/cost", "cost ", fresh, " cheapest alignment costs ", want, "; ", ctx);
    const double again = reused.EvaluateWarpingCost(ai, bj, fn);
    VT_CHECK(again == want, "dtw/reused-evaluator", "cost ", again, " cheapest alignment costs ", want, "; ", ctx);
    VT_CHECK(Catch([&] { reused.EvaluateWarpingCost({}, bj, fn); }) != Thrown::NONE, "dtw/empty", "accepted");
    VT_CHECK(Catch([&] { reused.EvaluateWarpingCost(ai, {}, fn); }) != Thrown::NONE, "dtw/empty", "accepted");
    Count("alignments");
    Nontrivial(HashStr(ctx));
    Sample(ctx);
  }
}

// ---------------------------------------------------------------- hierarchical
void Hierarchical(Rng& rng, uint64_t)
{
  namespace hc = cru::simple_hierarchical_clustering;
  const size_t n = g_large ? rng.Size(60, 130) : rng.Size(1, rng.Chance(0.1) ? 40 : 14);
  const bool distinct = rng.Chance(0.6);
  // Any symmetric matrix will do; distinct entries make the greedy order unique.
  Eigen::MatrixXd d = Eigen::MatrixXd::Zero(static_cast<ssize_t>(n), static_cast<ssize_t>(n));
  std::vector<double> values;
  for (size_t i = 0; i < n * n; i++) { values.push_back(static_cast<double>(distinct ? i + 1 : i % 7)); }
  rng.Shuffle(values);
  // Exact in double arithmetic: very different, and almost equal, distances.
  const double offset = rng.Chance(0.5) ? 0.0 : rng.Pick(std::vector<double>{1000.0, 0x1p20, 0x1p40});
  const double unit = rng.Chance(0.5) ? 1.0 : rng.Pick(std::vector<double>{0x1p-40, 0x1p-10, 0x1p20});
  for (double& v : values) { v = (v + offset) * unit; }
  if (offset > 0.0) { vt::Count("near_ties"); }
  for (size_t i = 0; i < n; i++)
  {
    for (size_t j = i + 1; j < n; j++)
    {
      const double v = rng.Chance(0.02) ? kInf : values[i * n + j];
      d(static_cast<ssize_t>(i), static_cast<ssize_t>(j)) = v;
      d(static_cast<ssize_t>(j), static_cast<ssize_t>(i)) = v;
    }
  }
  const auto at = [&](int64_t i, int64_t j) { return d(i, j); };
  const double bound = rng.Chance(0.1) ? kInf : rng.Chance(0.1) ? -1.0 : (static_cast<double>(rng.Int(0, static_cast<int64_t>(distinct ? n * n : 7))) + offset) * unit;
  const bool complete = rng.Chance(0.5);
  const auto strategy = complete ? hc::ClusterStrategy::COMPLETE_LINK : hc::ClusterStrategy::SINGLE_LINK;
  std::vector<int64_t> data(n);
  std::iota(data.begin(), data.end(), 0);
  const std::function<double(const int64_t&, const int64_t&)> fn = [&](const int64_t& i, const int64_t& j) { return at(i, j); };
  const auto linkage = [&](const std::vector<int64_t>& a, const std::vector<int64_t>& b)
  {
    double lo = kInf, hi = 0;
    for (const int64_t i : a) { for (const int64_t j : b) { lo = std::min(lo, at(i, j)); hi = std::max(hi, at(i, j)); } }
    return complete ? hi : lo;
  };
  const auto canonical = [](std::vector<std::vector<int64_t>> c)
  {
    for (auto& x : c) { std::sort(x.begin(), x.end()); }
    std::sort(c.begin(), c.end());
    return c;
  };
  // Reference: merge the closest two clusters while they are within the bound.
  std::vector<std::vector<int64_t>> ref;
  for (const int64_t i : data) { ref.push_back({i}); }
  double last = 0;
  while (true)
  {
    double best = kInf;
    size_t bi = 0, bj = 0;
    for (size_t i = 0; i < ref.size(); i++)
    {
      for (size_t j = i + 1; j < ref.size(); j++)
      {
        const double l = linkage(ref[i], ref[j]);
        if (l < best) { best = l; bi = i; bj = j; }
      }
    }
    if (std::isinf(best) || best > bound) { break; }
    last = best;
    ref[bi].insert(ref[bi].end(), ref[bj].begin(), ref[bj].end());
    ref.erase(ref.begin() + static_cast<long>(bj));
  }
  ref = canonical(ref);
  for (const int threads : g_large ? std::vector<int>{0, 6} : std::vector<int>{0, 1, 3, 8})
  {
    const std::string ctx = Str(complete ? "complete" : "single", " link, bound ", bound, ", ", n, " points, ", threads, " threads");
    for (int entry = 0; entry < 4; entry++)
    {
      std::vector<std::vector<int64_t>> got;
      double final_distance = 0;
      const auto take = [&](const auto& r)
      {
        final_distance = r.FinalClosestDistance();
        for (const auto& c : r.Clusters()) { got.emplace_back(c.begin(), c.end()); }
      };
      if (entry == 0) { take(hc::IndexClusterWithDistanceMatrix(d, bound, strategy, Par(threads))); }
      else if (entry == 1) { take(hc::IndexCluster<int64_t>(data, fn, bound, strategy, Par(threads))); }
      else if (entry == 2) { take(hc::ClusterWithDistanceMatrix<int64_t>(data, d, bound, strategy, Par(threads))); }
      else { take(hc::Cluster<int64_t>(data, fn, bound, strategy, Par(threads))); }
      std::vector<int> times(n, 0);
      for (const auto& c : got)
      {
        VT_CHECK(!c.empty(), "hierarchical/empty-cluster", ctx);
        for (const int64_t i : c)
        {
          VT_CHECK(i >= 0 && i < static_cast<int64_t>(n), "hierarchical/index", i, " ", ctx);
          times[static_cast<size_t>(i)]++;
        }
      }
      for (size_t i = 0; i < n; i++)
      {
        VT_CHECK(times[i] == 1, "hierarchical/not-a-partition", "point ", i, " appears ", times[i], " times; ", ctx);
      }
      double widest = 0;
      for (size_t i = 0; i < got.size(); i++)
      {
        if (complete)
        {
          for (const int64_t x : got[i])
          {
            for (const int64_t y : got[i]) { widest = std::max(widest, at(x, y)); }
          }
        }
        for (size_t j = i + 1; j < got.size(); j++)
        {
          const double l = linkage(got[i], got[j]);
          VT_CHECK(l > bound || std::isinf(l), "hierarchical/unmerged", "clusters ", l, " apart left separate; ", ctx);
        }
      }
      if (complete)
      {
        VT_CHECK(widest <= std::max(bound, 0.0), "hierarchical/bound-exceeded", "cluster as wide as ", widest, "; ", ctx);
        VT_CHECK(final_distance == widest, "hierarchical/final-distance", final_distance, " widest cluster ", widest, "; ", ctx);
      }
      else
      {
        // Single link has one answer whatever the tie order.
        VT_CHECK(canonical(got) == ref, "hierarchical/single-link-components", ctx);
        VT_CHECK(final_distance == last, "hierarchical/final-distance", final_distance, " expected ", last, "; ", ctx);
      }
      if (distinct)
      {
        VT_CHECK(canonical(got) == ref, "hierarchical/not-greedy", "clusters differ from merging the closest pair first; ", ctx);
        Count("unique_clusterings");
      }
      Count("clusterings");
      if (got.size() < n && got.size() > 1) { Count("partial_clusterings"); }
    }
    const Eigen::MatrixXd wrong = Eigen::MatrixXd::Zero(static_cast<ssize_t>(n), static_cast<ssize_t>(n) + 1);
    VT_CHECK(Catch([&] { hc::IndexClusterWithDistanceMatrix(wrong, bound, strategy, Par(threads)); }) != Thrown::NONE, "hierarchical/accepts", "non-square matrix");
    VT_CHECK(Catch([&] { hc::IndexClusterWithDistanceMatrix(Eigen::MatrixXd(0, 0), bound, strategy, Par(threads)); }) != Thrown::NONE, "hierarchical/accepts", "empty matrix");
    const Eigen::MatrixXd big = Eigen::MatrixXd::Zero(static_cast<ssize_t>(n) + 1, static_cast<ssize_t>(n) + 1);
    VT_CHECK(Catch([&] { hc::ClusterWithDistanceMatrix<int64_t>(data, big, bound, strategy, Par(threads)); }) != Thrown::NONE, "hierarchical/accepts", "matrix of the wrong size");
  }
  uint64_t h = Combine(n, complete);
  const auto bits = [](const double v) { uint64_t b; std::memcpy(&b, &v, sizeof(b)); return b; };
  for (ssize_t i = 0; i < d.size(); i++) { h = Combine(h, bits(d.data()[i])); }
  Nontrivial(Combine(h, bits(bound)));
  Sample(Str(n, " points bound ", bound));
}

// ---------------------------------------------------------------- k-means
using V2 = Eigen::Vector2d;
using V2s = std::vector<V2, Eigen::aligned_allocator<V2>>;

void KMeans(Rng& rng, uint64_t)
{
  namespace km = cru::simple_kmeans_clustering;
  const bool big = g_large || rng.Chance(0.2);
  const size_t n = g_large ? rng.Size(1000, 8000) : big ? rng.Size(100, 300) : rng.Size(1, 30);
  const int kind = static_cast<int>(rng.Int(0, 2));
  V2s data;
  std::vector<double> weights;
  for (size_t i = 0; i < n; i++)
  {
    if (kind == 0) { data.emplace_back(rng.Real(-10, 10), rng.Real(-10, 10)); }
    else if (kind == 1) { data.emplace_back(static_cast<double>(rng.Int(0, 2)), static_cast<double>(rng.Int(0, 1))); }  // many duplicates
    else
    {
      const double c = static_cast<double>(rng.Int(0, 2)) * 50.0;
      data.emplace_back(c + rng.Real(-1, 1), -c + rng.Real(-1, 1));
    }
    weights.push_back(rng.Pick<double>({1.0, 2.0, 0.5}));
  }
  const int32_t k = static_cast<int32_t>(rng.Int(1, std::min<int64_t>(static_cast<int64_t>(n), g_large ? 20 : 6)));
  const bool weighted = rng.Chance(0.5), prelim = big || rng.Chance(0.3);
  const int64_t seed = static_cast<int64_t>(rng.Next());
  const std::function<double(const V2&, const V2&)> dist = [](const V2& a, const V2& b) { return (a - b).norm(); };
  std::atomic<bool> empty_average(false);
  const std::function<V2(const V2s&)> average = [&](const V2s& v)
  {
    if (v.empty()) { empty_average.store(true); throw std::invalid_argument("average of nothing"); }
    V2 s(0, 0);
    for (const auto& x : v) { s += x; }
    return V2(s / static_cast<double>(v.size()));
  };
  const std::function<V2(const V2s&, const std::vector<double>&)> weighted_average = [&](const V2s& v, const std::vector<double>& w)
  {
    if (v.empty()) { empty_average.store(true); throw std::invalid_argument("average of nothing"); }
    V2 s(0, 0);
    double t = 0;
    for (size_t i = 0; i < v.size(); i++) { s += v[i] * w.at(i); t += w.at(i); }
    return V2(s / t);
  };
  std::string pts;
  for (size_t i = 0; i < n && i < 20; i++) { pts += Str(" (", data[i].x(), ",", data[i].y(), ")"); }
  std::vector<int32_t> first;
  for (const int threads : g_large ? std::vector<int>{0, 5} : std::vector<int>{0, 1, 4, 8})
  {
    const std::string ctx = Str(n, " points, k ", k, weighted ? " weighted" : "", prelim ? " preliminary" : "", " seed ", seed, " threads ", threads, pts);
    std::vector<int32_t> labels;
    const Thrown t = Catch([&] {
      labels = weighted ? km::ClusterWeighted<V2, V2s>(data, weights, dist, weighted_average, k, seed, prelim, Par(threads))
                        : km::Cluster<V2, V2s>(data, dist, average, k, seed, prelim, Par(threads));
    });
    VT_CHECK(!empty_average.load(), "kmeans/empty-cluster-averaged", "the average of an empty cluster was requested; ", ctx);
    VT_CHECK(t == Thrown::NONE, "kmeans/threw", LastWhat(), "; ", ctx);
    VT_CHECK(labels.size() == n, "kmeans/label-count", labels.size(), "; ", ctx);
    std::vector<V2, Eigen::aligned_allocator<V2>> sums(static_cast<size_t>(k), V2(0, 0));
    std::vector<double> totals(static_cast<size_t>(k), 0.0);
    for (size_t i = 0; i < n; i++)
    {
      VT_CHECK(labels[i] >= 0 && labels[i] < k, "kmeans/label-range", labels[i], "; ", ctx);
      const double w = weighted ? weights[i] : 1.0;
      sums[static_cast<size_t>(labels[i])] += data[i] * w;
      totals[static_cast<size_t>(labels[i])] += w;
    }
    // Converged: nobody is closer to another cluster's centre.
    for (size_t i = 0; i < n; i++)
    {
      const size_t own = static_cast<size_t>(labels[i]);
      const double d_own = (data[i] - sums[own] / totals[own]).norm();
      for (size_t c = 0; c < static_cast<size_t>(k); c++)
      {
        if (totals[c] > 0)
        {
          const double d_other = (data[i] - sums[c] / totals[c]).norm();
          VT_CHECK(d_own <= d_other + 1e-9, "kmeans/not-converged", "point ", i, " is ", d_own, " from its own centre and ", d_other,
                   " from another; ", ctx);
        }
      }
    }
    if (threads == 0) { first = labels; }
    VT_CHECK(labels == first, "kmeans/not-deterministic", "labels differ between serial and parallel runs with one seed; ", ctx);
    Count("kmeans_runs");
    if (k > 1) { Count("kmeans_real_runs"); }
  }
  Nontrivial(HashStr(Str(n, k, weighted, prelim, seed, pts)));
  Sample(Str(n, " points k ", k, pts));
}

void KMeansRejects(Rng& rng, uint64_t)
{
  namespace km = cru::simple_kmeans_clustering;
  const std::function<double(const double&, const double&)> dist = [](const double& a, const double& b) { return std::abs(a - b); };
  const std::function<double(const std::vector<double>&)> avg = [](const std::vector<double>& v)
  {
    double s = 0;
    for (const double x : v) { s += x; }
    return s / static_cast<double>(v.size());
  };
  std::vector<double> data;
  for (size_t i = rng.Size(1, 12); i > 0; i--) { data.push_back(static_cast<double>(i)); }
  const int32_t n = static_cast<int32_t>(data.size());
  const DegreeOfParallelism par = Par(rng.Chance(0.5) ? 4 : 0);
  const bool prelim = rng.Chance(0.5);
  VT_CHECK(km::Cluster<double>({}, dist, avg, static_cast<int32_t>(rng.Int(1, 4)), 1, prelim, par).empty(), "kmeans/empty-data", "labels for no data");
  VT_CHECK(Catch([&] { km::Cluster<double>(data, dist, avg, 0, 1, prelim, par); }) != Thrown::NONE, "kmeans/accepts", "zero clusters");
  VT_CHECK(Catch([&] { km::Cluster<double>(data, dist, avg, -static_cast<int32_t>(rng.Int(1, 5)), 1, prelim, par); }) != Thrown::NONE, "kmeans/accepts", "negative clusters");
  // More clusters than points: any answer but running forever.
  Catch([&] { km::Cluster<double>(data, dist, avg, n + static_cast<int32_t>(rng.Int(1, 5)), 1, prelim, par); });
  VT_CHECK(km::Cluster<double>(data, dist, avg, 1, 1, prelim, par) == std::vector<int32_t>(data.size(), 0), "kmeans/one-cluster", "labels not all zero");
  std::vector<int32_t> all = km::Cluster<double>(data, dist, avg, n, static_cast<int64_t>(rng.Next()), prelim, par);
  std::sort(all.begin(), all.end());
  for (int32_t i = 0; i < n; i++)
  {
    VT_CHECK(all[static_cast<size_t>(i)] == i, "kmeans/one-point-each", "distinct points as many as clusters share one: ", VecStr(all));
  }
  Count("kmeans_rejects");
  Nontrivial(static_cast<uint64_t>(n) * 2 + prelim);
}

void Hostile(Rng& rng)
{
#ifdef VT_OMP_SHIM
  vt_omp_configure(1, static_cast<int>(rng.Int(0, 1)), static_cast<int>(rng.Int(1, 8)), static_cast<int>(rng.Int(1, 2)), rng.Next());
#else
  (void)rng;
#endif
}
template<void (*Fn)(Rng&, uint64_t)>
void H(Rng& rng, uint64_t c)
{
  Hostile(rng);
  g_large = false;
  Fn(rng, c);
}
template<void (*Fn)(Rng&, uint64_t)>
void L(Rng& rng, uint64_t c)
{
  Hostile(rng);
  g_large = true;
  Fn(rng, c);
  Count("large_cases");
}
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 19
  return Main(argc, argv, {{"knn", 4000, 30000, H<Knn<std::vector<Point>>>}, {"knn_deque", 1000, 8000, H<Knn<std::deque<Point>>>},
                           {"knn_large", 40, 1500, L<Knn<std::vector<Point>>>}});
#elif VT_PROP == 20
  return Main(argc, argv, {{"hausdorff", 2500, 20000, H<Hausdorff>}, {"hausdorff_large", 12, 400, L<Hausdorff>}});
#elif VT_PROP == 21
  return Main(argc, argv, {{"dtw", 6000, 200000, H<Dtw>}, {"dtw_large", 40, 2000, L<Dtw>}});
#elif VT_PROP == 22
  return Main(argc, argv, {{"hierarchical", 1500, 20000, H<Hierarchical>}, {"hierarchical_large", 16, 400, L<Hierarchical>}});
#else
  return Main(argc, argv, {{"kmeans", 3000, 20000, H<KMeans>}, {"kmeans_large", 18, 1200, L<KMeans>}, {"rejects", 100, 1000, H<KMeansRejects>}});
#endif
}
