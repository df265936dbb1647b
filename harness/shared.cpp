// P49: objects shared between threads through const operations, and objects each
// owned by one thread, behave as they do alone and without data races.
#include "common.hpp"

#include <array>
#include <deque>
#include <map>
#include <memory>
#include <random>
#include <thread>

#include <common_robotics_utilities/base64_helpers.hpp>
#include <common_robotics_utilities/color_builder.hpp>
#include <common_robotics_utilities/conversions.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/maybe.hpp>
#include <common_robotics_utilities/path_processing.hpp>
#include <common_robotics_utilities/print.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_dtw.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/simple_task_planner.hpp>
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
#include <common_robotics_utilities/utility.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/zlib_helpers.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace sg = cru::simple_graph;
namespace sgs = cru::simple_graph_search;
namespace vg = cru::voxel_grid;
namespace ser = cru::serialization;
namespace prm = cru::simple_prm_planner;
namespace rrt = cru::simple_rrt_planner;
namespace knn = cru::simple_knearest_neighbors;
namespace totp = cru::time_optimal_trajectory_parametrization;
namespace par = cru::parallelism;
using cru::parallelism::DegreeOfParallelism;

#ifdef VT_OMP_SHIM
extern "C" void vt_omp_configure(int delay, int shrink, int thread_limit, int nested_levels, uint64_t seed);
#endif

namespace
{
struct P
{
  double x = 0, y = 0;
  bool operator==(const P& o) const { return x == o.x && y == o.y; }
};
using Path = std::vector<P>;
using G = sg::Graph<P>;

uint64_t H(double d) { uint64_t v; d += 0.0; std::memcpy(&v, &d, 8); return Mix(v); }
uint64_t H(int64_t v) { return Mix(static_cast<uint64_t>(v)); }
uint64_t H(const P& p) { return Combine(H(p.x), H(p.y)); }
uint64_t H(const std::string& s) { return HashStr(s); }
uint64_t H(const std::vector<uint8_t>& b) { return HashStr(std::string(b.begin(), b.end())); }
template<typename T> uint64_t H(const std::vector<T>& v)
{
  uint64_t h = v.size();
  for (const T& e : v) { h = Combine(h, H(e)); }
  return h;
}
template<typename D> uint64_t H(const Eigen::MatrixBase<D>& m)
{
  uint64_t h = 3;
  for (Eigen::Index i = 0; i < m.size(); i++) { h = Combine(h, H(static_cast<double>(m(i)))); }
  return h;
}
uint64_t H(const std::vector<int32_t>& v)
{
  uint64_t h = v.size();
  for (const int32_t e : v) { h = Combine(h, static_cast<uint64_t>(static_cast<int64_t>(e))); }
  return h;
}
uint64_t H(const G& g)
{
  uint64_t h = static_cast<uint64_t>(g.Size());
  for (int64_t i = 0; i < g.Size(); i++)
  {
    h = Combine(h, H(g.GetNodeImmutable(i).GetValueImmutable()));
    for (const auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable())
    {
      h = Combine(h, Combine(H(e.GetToIndex()), H(e.GetWeight())));
    }
  }
  return h;
}

double Dist(const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); }
P Lerp(const P& a, const P& b, double r) { P p; p.x = a.x + r * (b.x - a.x); p.y = a.y + r * (b.y - a.y); return p; }
// A pseudo-random symmetric relation.
bool Clear(const P& a, const P& b) { return Mix(H(a) ^ H(b)) % 8 != 0; }
P RandomP(Rng& r) { P p; p.x = r.Real(-5, 5); p.y = r.Real(-5, 5); return p; }
Path RandomPs(Rng& r, size_t lo, size_t hi)
{
  Path v;
  for (size_t n = r.Size(lo, hi); n > 0; n--) { v.push_back(RandomP(r)); }
  return v;
}
DegreeOfParallelism Par(Rng& r) { return DegreeOfParallelism(static_cast<int32_t>(r.Int(1, 3))); }

const ser::Serializer<P> kSerP = ser::SerializeMemcpyable<P>;
const ser::Deserializer<P> kDeserP = ser::DeserializeMemcpyable<P>;

using Trajectory = std::unique_ptr<totp::PositionVelocityTrajectoryInterface>;
Trajectory MakeTrajectory(Rng& r)
{
  std::vector<Eigen::VectorXd> path;
  for (int i = 0; i < 3; i++) { path.push_back(Eigen::Vector2d(i + r.Real(0, 0.5), r.Real(0, 2))); }
  return totp::ParametrizePathTOTP(path, Eigen::Vector2d(1, 1), Eigen::Vector2d(2, 2), 0.05, 0.02);
}

G MakeGraph(Rng& r, int64_t n)
{
  G g;
  for (int64_t i = 0; i < n; i++) { g.AddNode(sg::GraphNode<P>(RandomP(r))); }
  for (int64_t i = 1; i < n; i++)
  {
    const int64_t j = r.Int(0, i - 1);
    g.AddEdgesBetweenNodes(i, j, Dist(g.GetNodeImmutable(i).GetValueImmutable(), g.GetNodeImmutable(j).GetValueImmutable()));
  }
  for (int64_t e = 0; e < n; e++)
  {
    const int64_t i = r.Int(0, n - 1), j = r.Int(0, n - 1);
    if (i != j && !g.GetNodeImmutable(i).GetOutEdgesImmutable().empty())
    {
      g.AddEdgeBetweenNodes(i, j, Dist(g.GetNodeImmutable(i).GetValueImmutable(), g.GetNodeImmutable(j).GetValueImmutable()));
    }
  }
  return g;
}

template<typename Grid>
Grid MakeDense(Rng& r)
{
  Eigen::Isometry3d o = Eigen::Isometry3d::Identity();
  o.translation() = Eigen::Vector3d(r.Real(-2, 2), r.Real(-2, 2), r.Real(-2, 2));
  Grid g(o, vg::GridSizes(0.5, r.Int(1, 6), r.Int(1, 6), r.Int(1, 6)), -1, -2);
  for (int64_t i = 0; i < g.GetTotalCells(); i++)
  {
    g.SetIndex(g.GetGridSizes().GetGridIndexFromDataIndex(i), static_cast<int32_t>(r.Int(0, 1000)));
  }
  return g;
}

using Sparse = vg::DynamicSpatialHashedVoxelGrid<int32_t>;
Sparse MakeSparse(Rng& r)
{
  Eigen::Isometry3d o = Eigen::Isometry3d::Identity();
  o.translation() = Eigen::Vector3d(r.Real(-2, 2), r.Real(-2, 2), r.Real(-2, 2));
  Sparse g(o, vg::GridSizes(0.5, int64_t{2}, int64_t{2}, int64_t{2}), -1, 10);
  for (int i = 0; i < 30; i++)
  {
    g.SetLocation3d(Eigen::Vector3d(r.Real(-3, 3), r.Real(-3, 3), r.Real(-3, 3)),
                    r.Chance(0.7) ? vg::DSHVGSetType::SET_CELL : vg::DSHVGSetType::SET_CHUNK, static_cast<int32_t>(r.Int(0, 1000)));
  }
  return g;
}

// Nearest neighbours of a roadmap, stateless.
using Knn = prm::LinearGraphKNNProvider<P, G>;

struct World
{
  vg::VoxelGrid<int32_t> dense;
  Sparse sparse;
  G graph;
  std::unique_ptr<sg::NonOwningGraphOverlay<P, G>> overlay;
  Path points, other;
  Eigen::MatrixXd distances;
  std::vector<uint8_t> bytes, compressed, graph_buffer, dense_buffer, sparse_buffer;
  std::string base64, text;
  Trajectory trajectory;
  rrt::SimpleRRTPlannerTree<P> tree;
  std::map<int32_t, std::string> dictionary;
  cru::OwningMaybe<Path> maybe;
  Knn knn;
  std::vector<double> numbers, weights;
  std::vector<Eigen::VectorXd> vectors;
  cru::math::VectorVector3d vectors3;
  cru::math::VectorVector4d vectors4;
  cru::math::VectorQuaterniond rotations;
  cru::math::VectorIsometry3d poses;
  cru::math::Hyperplane plane;
  std::map<std::string, std::vector<std::pair<int32_t, P>>> nested;
  std::set<int32_t> keys;

  explicit World(Rng& r)
    : dense(MakeDense<vg::VoxelGrid<int32_t>>(r)), sparse(MakeSparse(r)), graph(MakeGraph(r, r.Int(5, 25))),
      points(RandomPs(r, 5, 20)), other(RandomPs(r, 5, 20)), trajectory(MakeTrajectory(r)), maybe(RandomPs(r, 1, 5)), knn(Dist, Par(r))
  {
    overlay.reset(new sg::NonOwningGraphOverlay<P, G>(graph));
    overlay->AddNode(sg::GraphNode<P>(RandomP(r)));
    overlay->AddEdgesBetweenNodes(0, graph.Size(), 1.0);
    distances = Eigen::MatrixXd::Zero(static_cast<Eigen::Index>(points.size()), static_cast<Eigen::Index>(points.size()));
    for (size_t i = 0; i < points.size(); i++)
    {
      for (size_t j = 0; j < points.size(); j++)
      {
        distances(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = Dist(points[i], points[j]);
      }
    }
    for (size_t n = r.Size(0, 300); n > 0; n--) { bytes.push_back(static_cast<uint8_t>(r.Int(0, 20))); }
    compressed = cru::zlib_helpers::CompressBytes(bytes);
    base64 = cru::base64_helpers::Encode(bytes);
    text.assign(r.Size(0, 50), 'q');
    G::Serialize(graph, graph_buffer, kSerP);
    vg::VoxelGrid<int32_t>::Serialize(dense, dense_buffer, ser::SerializeMemcpyable<int32_t>);
    Sparse::Serialize(sparse, sparse_buffer, ser::SerializeMemcpyable<int32_t>);
    const int64_t root = tree.AddNode(points[0]);
    for (size_t i = 1; i < points.size(); i++) { tree.AddNodeAndConnect(points[i], r.Int(root, static_cast<int64_t>(i) - 1)); }
    for (size_t n = r.Size(3, 12); n > 0; n--)
    {
      numbers.push_back(r.Real(-5, 5));
      weights.push_back(r.Real(0.1, 3));
      vectors.push_back(Eigen::Vector3d(r.Real(-3, 3), r.Real(-3, 3), r.Real(-3, 3)));
      vectors3.push_back(vectors.back());
      vectors4.push_back(Eigen::Vector4d(r.Real(-3, 3), r.Real(-3, 3), r.Real(-3, 3), 1));
      rotations.push_back(Eigen::Quaterniond(r.Real(-1, 1), r.Real(-1, 1), r.Real(-1, 1), 1.5).normalized());
      poses.push_back(Eigen::Isometry3d(Eigen::Translation3d(vectors3.back()) * rotations.back()));
      nested[std::string(r.Size(0, 4), 'n')].emplace_back(static_cast<int32_t>(r.Int(0, 9)), RandomP(r));
      keys.insert(static_cast<int32_t>(r.Int(0, 99)));
    }
    plane = cru::math::Hyperplane(vectors.front(), vectors4.front().head<3>());
    for (int i = 0; i < 8; i++) { dictionary[static_cast<int32_t>(r.Int(0, 99))] = std::string(r.Size(0, 20), 'd'); }
  }
};

Eigen::Vector3d Where(Rng& r) { return Eigen::Vector3d(r.Real(-3, 3), r.Real(-3, 3), r.Real(-3, 3)); }

template<typename V, typename Q> uint64_t HQ(const Q& q) { return q ? Combine(1, static_cast<uint64_t>(static_cast<int64_t>(q.Value()))) : 2; }

// ------------------------------------------------------------ shared, const
using SharedJob = uint64_t (*)(const World&, Rng&);

uint64_t DenseLookup(const World& w, Rng& r)
{
  uint64_t h = 0;
  for (int i = 0; i < 20; i++)
  {
    const Eigen::Vector3d p = Where(r);
    h = Combine(h, HQ<int32_t>(w.dense.GetLocationImmutable3d(p)));
    h = Combine(h, HQ<int32_t>(w.dense.GetLocationImmutable4d(Eigen::Vector4d(p.x(), p.y(), p.z(), 1.0))));
    const auto idx = w.dense.LocationToGridIndex3d(p);
    h = Combine(h, HQ<int32_t>(w.dense.GetIndexImmutable(idx)));
    h = Combine(h, H(w.dense.GridIndexToLocation(idx)));
    h = Combine(h, H(w.dense.LocationInGridFrameToGridIndex3d(p).X()));
    const int64_t d = r.Int(0, w.dense.GetTotalCells() - 1);
    h = Combine(h, static_cast<uint64_t>(w.dense.GetDataIndexImmutable(d)));
    h = Combine(h, H(w.dense.GetGridSizes().GetGridIndexFromDataIndex(d).Y()));
  }
  h = Combine(h, H(w.dense.GetImmutableRawData()));
  return Combine(h, H(w.dense.GetOriginTransform().matrix()));
}
uint64_t DenseCopy(const World& w, Rng& r)
{
  const auto clone = w.dense.Clone();
  vg::VoxelGrid<int32_t> copy(w.dense);
  copy.SetIndex(0, 0, 0, static_cast<int32_t>(r.Int(0, 9)));
  std::vector<uint8_t> b;
  vg::VoxelGrid<int32_t>::Serialize(w.dense, b, ser::SerializeMemcpyable<int32_t>);
  const auto d = vg::VoxelGrid<int32_t>::Deserialize(w.dense_buffer, 0, ser::DeserializeMemcpyable<int32_t>);
  return Combine(Combine(H(clone->GetImmutableRawData()), H(copy.GetImmutableRawData())),
                 Combine(H(b), H(d.Value().GetImmutableRawData())));
}
uint64_t HashSparse(const Sparse& s, Rng& r)
{
  uint64_t h = s.GetImmutableInternalChunks().size();
  for (int i = 0; i < 40; i++)
  {
    const Eigen::Vector3d p = Where(r);
    auto q = s.GetLocationImmutable3d(p);
    h = Combine(h, Combine(HQ<int32_t>(q), static_cast<uint64_t>(q.FoundStatus())));
  }
  return h;
}
uint64_t SparseLookup(const World& w, Rng& r)
{
  uint64_t h = HashSparse(w.sparse, r);
  for (const auto& kv : w.sparse.GetImmutableInternalChunks()) { h += H(kv.second.GetChunkCenterInGridFrame()); }
  return h;
}
uint64_t SparseCopy(const World& w, Rng& r)
{
  const auto clone = w.sparse.Clone();
  std::vector<uint8_t> b;
  Sparse::Serialize(w.sparse, b, ser::SerializeMemcpyable<int32_t>);
  const auto d = Sparse::Deserialize(w.sparse_buffer, 0, ser::DeserializeMemcpyable<int32_t>);
  uint64_t h = Combine(H(b), HashSparse(d.Value(), r));
  for (int i = 0; i < 20; i++) { h = Combine(h, HQ<int32_t>(clone->GetLocationImmutable3d(Where(r)))); }
  return h;
}
uint64_t GraphRead(const World& w, Rng& r)
{
  std::vector<uint8_t> b;
  G::Serialize(w.graph, b, kSerP);
  const G copy(w.graph);
  const auto d = G::Deserialize(w.graph_buffer, 0, kDeserP);
  (void)r;
  return Combine(Combine(H(b), H(copy)), Combine(H(d.Value()), Combine(w.graph.CheckGraphLinkage(), w.overlay->Size())));
}
uint64_t Prune(const World& w, Rng& r)
{
  std::unordered_set<int64_t> cut;
  for (int i = 0; i < 4; i++) { cut.insert(r.Int(0, w.graph.Size() - 1)); }
  const G a = sg::PruneGraph<G, G>(w.graph, cut, Par(r));
  const G b = sg::PruneGraph<sg::NonOwningGraphOverlay<P, G>, G>(*w.overlay, cut, Par(r));
  return Combine(H(a), H(b));
}
uint64_t Overlay(const World& w, Rng& r)
{
  sg::NonOwningGraphOverlay<P, G> mine(w.graph);
  for (int i = 0; i < 4; i++)
  {
    const int64_t at = mine.AddNode(sg::GraphNode<P>(RandomP(r)));
    mine.AddEdgesBetweenNodes(at, r.Int(0, at - 1), r.Real(0, 3));
  }
  uint64_t h = mine.CheckGraphLinkage();
  for (int64_t i = 0; i < mine.Size(); i++) { h = Combine(h, mine.GetNodeImmutable(i).GetOutEdgesImmutable().size()); }
  return Combine(h, H(w.graph));
}
uint64_t Search(const World& w, Rng& r)
{
  const int64_t n = w.graph.Size(), a = r.Int(0, n - 1), b = r.Int(0, n - 1), c = r.Int(0, n - 1);
  const auto d = sgs::PerformDijkstrasAlgorithm(w.graph, a);
  uint64_t h = static_cast<uint64_t>(d.Size());
  for (int64_t i = 0; i < d.Size(); i++) { h = Combine(h, Combine(H(d.GetNodeDistance(i)), H(d.GetPreviousIndex(i)))); }
  const auto heuristic = std::function<double(const P&, const P&)>(Dist);
  const auto s1 = sgs::PerformAstarSearch<P, G>(w.graph, {a, c}, {b}, heuristic, r.Chance(0.5));
  const auto s2 = sgs::PerformLazyAstarSearch<P, G>(w.graph, {a}, {b, c}, std::function<bool(const P&, const P&)>(Clear), heuristic,
                                                    heuristic, true);
  return Combine(h, Combine(Combine(H(s1.PathCost()), H(s1.Path())), Combine(H(s2.PathCost()), H(s2.Path()))));
}
uint64_t Roadmap(const World& w, Rng& r)
{
  const Knn own_provider(Dist, Par(r));
  const Knn& provider = r.Chance(0.5) ? w.knn : own_provider;
  const std::function<bool(const int32_t, const P&, const P&)> edge = [](const int32_t, const P& a, const P& b) { return Clear(a, b); };
  const Path starts = {RandomP(r)}, goals = {RandomP(r), RandomP(r)};
  const auto q1 = prm::QueryPath<P, Path, G>(starts, goals, w.graph, provider, Dist, edge, 3, Par(r), true, r.Chance(0.5), true, r.Chance(0.5));
  const auto q2 = prm::LazyQueryPath<P, Path, G>(starts, goals, w.graph, provider, Dist, edge, 3, Par(r), true, false, true, r.Chance(0.5));
  return Combine(Combine(H(q1.PathCost()), H(q1.Path())), Combine(H(q2.PathCost()), H(q2.Path())));
}
uint64_t Nearest(const World& w, Rng& r)
{
  const P q = RandomP(r);
  const auto near = knn::GetKNearestNeighbors<P, P>(w.points, q, Dist, r.Int(0, 8), Par(r));
  std::vector<double> d;
  for (const auto& x : near) { d.push_back(x.Distance()); }
  return H(d);
}
uint64_t Distances(const World& w, Rng& r)
{
  const std::function<double(const P&, const P&)> fn = Dist;
  cru::simple_dtw::SimpleDTW<P, P> dtw;
  const double a = cru::simple_hausdorff_distance::ComputeDistance<P, P>(w.points, w.other, fn, Par(r));
  const double b = dtw.EvaluateWarpingCost(w.points, w.other, fn);
  const double c = cru::simple_dtw::EvaluateWarpingCost<P, P>(w.other, w.points, fn);
  const Eigen::MatrixXd m = cru::math::BuildPairwiseDistanceMatrix<P>(w.points, fn, Par(r));
  return Combine(Combine(H(a), H(b)), Combine(H(c), H(m)));
}
uint64_t Linkage(const World& w, Rng& r)
{
  namespace hc = cru::simple_hierarchical_clustering;
  const auto strategy = r.Chance(0.5) ? hc::ClusterStrategy::SINGLE_LINK : hc::ClusterStrategy::COMPLETE_LINK;
  const double limit = r.Real(0, 4);
  const auto a = hc::IndexClusterWithDistanceMatrix(w.distances, limit, strategy, Par(r));
  const auto b = hc::Cluster<P>(w.points, Dist, limit, strategy, Par(r));
  uint64_t h = H(b.Clusters());
  for (const auto& c : a.Clusters()) { h = Combine(h, H(c)); }
  return h;
}
uint64_t Kmeans(const World& w, Rng& r)
{
  const std::function<P(const Path&)> mean = [](const Path& v)
  {
    P m;
    for (const P& p : v) { m.x += p.x; m.y += p.y; }
    m.x /= static_cast<double>(v.size());
    m.y /= static_cast<double>(v.size());
    return m;
  };
  return H(cru::simple_kmeans_clustering::Cluster<P>(w.points, Dist, mean, static_cast<int32_t>(r.Int(1, 4)), r.Int(0, 1000),
                                                     r.Chance(0.5), Par(r)));
}
uint64_t Paths(const World& w, Rng& r)
{
  namespace pp = cru::path_processing;
  const Path a = pp::ResamplePath<P>(w.points, r.Real(0.2, 2), Dist, Lerp);
  const Path b = pp::ShortcutSmoothPath<P>(w.points, 40, 10, 2, 0.5, 0.3, true, Clear, Dist, Lerp, [&] { return r.Unit(); });
  return Combine(H(a), H(b));
}
uint64_t Bytes(const World& w, Rng&)
{
  return Combine(Combine(H(cru::zlib_helpers::DecompressBytes(w.compressed)), H(cru::zlib_helpers::CompressBytes(w.bytes))),
                 Combine(H(cru::base64_helpers::Decode(w.base64)), H(cru::base64_helpers::Encode(w.bytes))));
}
uint64_t CloneTrajectory(const World& w, Rng& r)
{
  const Trajectory mine = w.trajectory->Clone();
  uint64_t h = Combine(H(mine->Duration()), H(w.trajectory->Duration()));
  for (int i = 0; i < 8; i++)
  {
    const auto p = mine->GetPositionVelocityTimePoint(r.Real(0, mine->Duration()));
    h = Combine(h, Combine(H(p.Position()), H(p.Velocity())));
  }
  return h;
}
uint64_t TreeRead(const World& w, Rng& r)
{
  std::vector<uint8_t> b;
  uint64_t h = rrt::SimpleRRTPlannerTree<P>::Serialize(w.tree, b, kSerP);
  const auto d = rrt::SimpleRRTPlannerTree<P>::Deserialize(b, 0, kDeserP);
  h = Combine(h, H(b));
  h = Combine(h, H(rrt::ExtractSolutionPath<P>(w.tree, r.Int(0, w.tree.Size() - 1))));
  h = Combine(h, static_cast<uint64_t>(rrt::MakeKinematicLinearRRTNearestNeighborsFunction<P>(Dist, Par(r))(w.tree, RandomP(r))));
  return Combine(h, static_cast<uint64_t>(d.Value().Size()));
}
uint64_t Misc(const World& w, Rng& r)
{
  uint64_t h = H(cru::print::Print(w.dictionary, true));
  h = Combine(h, H(cru::utility::GetKeysFromMapLike<int32_t, std::string>(w.dictionary)));
  h = Combine(h, H(cru::utility::RetrieveOrDefault<int32_t, std::string>(w.dictionary, static_cast<int32_t>(r.Int(0, 99)), "none")));
  h = Combine(h, cru::utility::IsSubset<uint8_t>(w.bytes, w.bytes));
  h = Combine(h, cru::utility::CollectionsEqual<uint8_t>(w.bytes, w.bytes));
  h = Combine(h, H(w.maybe.Value()));
  const cru::OwningMaybe<Path> copy(w.maybe);
  const cru::ReferencingMaybe<const Path> ref(w.points);
  h = Combine(h, Combine(H(copy.Value()), H(ref.Value())));
  std::vector<uint8_t> b;
  ser::SerializeString<char>(w.text, b);
  ser::SerializeVectorLike<P>(w.points, b, kSerP);
  const auto s = ser::DeserializeString<char>(b, 0);
  return Combine(h, Combine(H(b), H(s.Value())));
}

uint64_t Averages(const World& w, Rng& r)
{
  namespace m = cru::math;
  const bool weighted = r.Chance(0.5);
  const std::vector<double> k = weighted ? w.weights : std::vector<double>();
  uint64_t h = Combine(H(m::AverageStdVectorDouble(w.numbers, k)), H(m::ComputeStdDevStdVectorDouble(w.numbers)));
  h = Combine(h, Combine(H(m::AverageEigenVectorXd(w.vectors, k)), H(m::AverageEigenVector3d(w.vectors3, k))));
  h = Combine(h, Combine(H(m::AverageEigenVector4d(w.vectors4, k)), H(m::AverageEigenQuaterniond(w.rotations, k).coeffs())));
  h = Combine(h, Combine(H(m::AverageEigenIsometry3d(w.poses, k).matrix()), H(m::AverageContinuousRevolute(w.numbers, k))));
  h = Combine(h, H(m::WeightedNorm(w.vectors[0], w.vectors[1].cwiseAbs())));
  h = Combine(h, Combine(H(m::Multiply(w.numbers, w.weights)), H(m::Norm(w.numbers))));
  return Combine(h, H(m::Interpolate(w.numbers, w.weights, r.Unit())));
}
uint64_t Geometry(const World& w, Rng& r)
{
  namespace m = cru::math;
  const Eigen::VectorXd p = Where(r);
  uint64_t h = Combine(H(w.plane.GetDistanceToPlane(p)), H(w.plane.ProjectPointOntoPlane(p)));
  h = Combine(h, Combine(H(w.plane.GetNormedDotProduct(p)), H(w.plane.ProjectVectorOntoPlane(p))));
  const m::Hyperplane fitted = m::FitPlaneToPoints(w.vectors);
  h = Combine(h, Combine(H(fitted.GetOrigin()), H(fitted.GetNormal())));
  h = Combine(h, Combine(H(m::VectorProjection(w.vectors[0], p)), H(m::VectorRejection(w.vectors[1], p))));
  h = Combine(h, Combine(H(m::GetArbitraryOrthogonalVector(w.vectors3[0])), H(m::ClampNorm(w.vectors[2], 0.7))));
  h = Combine(h, H(m::TwistBetweenTransforms(w.poses[0], w.poses[1])));
  h = Combine(h, H(m::ExpTwist(m::TwistBetweenTransforms(w.poses[1], w.poses[2]), r.Unit()).matrix()));
  h = Combine(h, Combine(H(m::Distance(w.poses[0], w.poses[2])), H(m::Interpolate(w.rotations[0], w.rotations[1], r.Unit()).coeffs())));
  namespace cv = cru::conversions;
  h = Combine(h, Combine(H(cv::EulerAnglesFromIsometry3d(w.poses[0])), H(cv::EigenVector3dToStdVectorDouble(w.vectors3[0]))));
  return Combine(h, H(cv::StdVectorDoubleToEigenVectorXd(w.numbers)));
}
uint64_t Formats(const World& w, Rng& r)
{
  uint64_t h = Combine(H(cru::print::Print(w.numbers, r.Chance(0.5), "; ")), H(cru::print::Print(w.distances)));
  h = Combine(h, Combine(H(cru::print::Print(w.poses[0])), H(cru::print::Print(w.rotations[0]))));
  h = Combine(h, Combine(H(cru::print::Print(w.vectors3[0])), H(cru::print::Print(w.keys, true))));
  using Value = std::vector<std::pair<int32_t, P>>;
  const ser::Serializer<std::pair<int32_t, P>> pair_out = [](const std::pair<int32_t, P>& v, std::vector<uint8_t>& b)
  {
    return ser::SerializePair<int32_t, P>(v, b, ser::SerializeNetworkMemcpyable<int32_t>, kSerP);
  };
  const ser::Deserializer<std::pair<int32_t, P>> pair_in = [](const std::vector<uint8_t>& b, const uint64_t at)
  {
    return ser::DeserializePair<int32_t, P>(b, at, ser::DeserializeNetworkMemcpyable<int32_t>, kDeserP);
  };
  const ser::Serializer<Value> vector_out = [&](const Value& v, std::vector<uint8_t>& b)
  {
    return ser::SerializeVectorLike<std::pair<int32_t, P>>(v, b, pair_out);
  };
  const ser::Deserializer<Value> vector_in = [&](const std::vector<uint8_t>& b, const uint64_t at)
  {
    return ser::DeserializeVectorLike<std::pair<int32_t, P>>(b, at, pair_in);
  };
  std::vector<uint8_t> b;
  ser::SerializeMapLike<std::string, Value>(w.nested, b, ser::SerializeString<char>, vector_out);
  const auto back = ser::DeserializeMapLike<std::string, Value>(b, 0, ser::DeserializeString<char>, vector_in);
  h = Combine(h, Combine(H(b), back.Value().size()));
  const size_t at = b.size();
  ser::SerializeMatrixXd(w.distances, b);
  h = Combine(h, H(ser::DeserializeMatrixXd(b, at).Value()));
  const size_t pose_at = b.size();
  ser::SerializeIsometry3d(w.poses[1], b);
  h = Combine(h, H(ser::DeserializeIsometry3d(b, pose_at).Value().matrix()));
  ser::SerializeSetLike<int32_t>(w.keys, b, ser::SerializeMemcpyable<int32_t>);
  struct Channels { float r, g, b, a; };
  const auto hot = cru::color_builder::InterpolateHotToCold<Channels>(r.Unit());
  const auto unique = cru::color_builder::LookupUniqueColor<Channels>(static_cast<uint32_t>(r.Int(0, 21)), 1.0f);
  h = Combine(h, Combine(H(static_cast<double>(hot.r + 2 * hot.g + 4 * hot.b)), H(static_cast<double>(unique.r + 2 * unique.g + 4 * unique.b))));
  return Combine(h, H(b));
}
// Searches over the shared overlay, and over an implicit space made of the
// shared points.
uint64_t Implicit(const World& w, Rng& r)
{
  using O = sg::NonOwningGraphOverlay<P, G>;
  const int64_t n = w.overlay->Size(), a = r.Int(0, n - 1), b = r.Int(0, n - 1);
  const auto d = sgs::PerformDijkstrasAlgorithm(*w.overlay, a);
  uint64_t h = H(d.GetNodeDistance(b));
  const auto s = sgs::PerformAstarSearch<P, O>(*w.overlay, {a}, {b}, std::function<double(const P&, const P&)>(Dist), true);
  h = Combine(h, Combine(H(s.PathCost()), H(s.Path())));
  namespace as = cru::simple_astar_search;
  const int64_t last = static_cast<int64_t>(w.points.size()) - 1, goal = r.Int(0, last);
  const as::StatesWithCosts<int64_t> starts = {as::StateWithCost<int64_t>(r.Int(0, last), 0.5), as::StateWithCost<int64_t>(r.Int(0, last), 1)};
  const auto children = [&](const int64_t& s)
  {
    as::StatesWithCosts<int64_t> out;
    for (int64_t t = std::max<int64_t>(0, s - 2); t <= std::min(last, s + 2); t++)
    {
      const P &p = w.points[static_cast<size_t>(s)], &q = w.points[static_cast<size_t>(t)];
      if (t != s && Clear(p, q)) { out.emplace_back(t, Dist(p, q)); }
    }
    return out;
  };
  const auto result = as::PerformAstarSearch<int64_t>(
      starts, [&](const int64_t& s) { return s == goal; }, children,
      [&](const int64_t& s) { return Dist(w.points[static_cast<size_t>(s)], w.points[static_cast<size_t>(goal)]); }, r.Chance(0.5));
  return Combine(h, Combine(H(result.PathCost()), H(result.Path())));
}

const std::vector<std::pair<const char*, SharedJob>> kShared = {
    {"dense-lookup", DenseLookup}, {"dense-copy", DenseCopy}, {"sparse-lookup", SparseLookup}, {"sparse-copy", SparseCopy},
    {"graph-read", GraphRead}, {"prune", Prune}, {"overlay", Overlay}, {"search", Search}, {"roadmap-query", Roadmap},
    {"nearest", Nearest}, {"distances", Distances}, {"linkage", Linkage}, {"kmeans", Kmeans}, {"paths", Paths}, {"bytes", Bytes},
    {"trajectory-clone", CloneTrajectory}, {"tree-read", TreeRead}, {"misc", Misc},
    {"averages", Averages}, {"geometry", Geometry}, {"formats", Formats}, {"implicit-search", Implicit}};

// ------------------------------------------------------------ own objects
using OwnJob = uint64_t (*)(Rng&);

uint64_t OwnGenerators(Rng& r)
{
  const uint64_t seed = r.Next();
  cru::simple_prngs::SplitMix64PRNG a(seed);
  cru::simple_prngs::XorShift128PlusPRNG b(seed);
  cru::simple_prngs::XorShift1024StarPRNG c(seed);
  uint64_t h = 0;
  for (int i = 0; i < 50; i++) { h = Combine(h, a() ^ b() ^ c()); }
  std::mt19937_64 m(seed);
  cru::random_rotation_generator::RandomRotationGenerator rot;
  h = Combine(h, H(rot.GetQuaternion(m).coeffs()));
  h = Combine(h, H(rot.GetEulerAngles(m)));
  return Combine(h, cru::utility::GetUniformRandomIndex<size_t>([&] { return r.Unit(); }, 17));
}
uint64_t OwnTrajectory(Rng& r)
{
  const Trajectory t = MakeTrajectory(r);
  uint64_t h = H(t->Duration());
  for (int i = 0; i < 5; i++) { h = Combine(h, H(t->GetPositionVelocityTimePoint(r.Real(0, t->Duration())).Position())); }
  return h;
}
uint64_t OwnRrt(Rng& r)
{
  rrt::SimpleRRTPlannerTree<P> tree;
  tree.AddNode(P{});
  const P goal = RandomP(r);
  int n = 0;
  const auto result = rrt::RRTPlanSinglePath<P, rrt::SimpleRRTPlannerTree<P>, P>(
      tree, [&] { return r.Chance(0.2) ? goal : RandomP(r); },
      rrt::MakeKinematicLinearRRTNearestNeighborsFunction<P>(Dist, Par(r)),
      rrt::MakeKinematicRRTExtendPropagationFunction<P>(Dist, Lerp, Clear, 0.7), {}, [&](const P& p) { return Dist(p, goal) < 0.2; }, {},
      [&](int64_t) { return ++n > 60; });
  return Combine(H(result.Path()), static_cast<uint64_t>(tree.Size()));
}
uint64_t OwnBirrt(Rng& r)
{
  rrt::SimpleRRTPlannerTree<P> a, b;
  a.AddNode(P{});
  b.AddNode(RandomP(r));
  int n = 0;
  const auto unit = [&] { return r.Unit(); };
  const auto result = rrt::BiRRTPlanSinglePath<P>(
      a, b, rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<P>(unit, 0.5), [&] { return RandomP(r); },
      rrt::MakeUniformRandomBiRRTTreeSamplingFunction<P>(unit), rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<P>(Dist, Par(r)),
      rrt::MakeKinematicBiRRTConnectPropagationFunction<P>(Dist, Lerp, Clear, 0.7), {},
      [](const P& x, const P& y, rrt::BiRRTActiveTreeType) { return Dist(x, y) < 0.2; }, {},
      rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<P>(unit, 0.2), [&](int64_t, int64_t) { return ++n > 40; });
  return Combine(H(result.Path()), Combine(static_cast<uint64_t>(a.Size()), static_cast<uint64_t>(b.Size())));
}
uint64_t OwnRoadmap(Rng& r)
{
  G g;
  const Knn provider(Dist, Par(r));
  const std::function<bool(const int32_t, const P&, const P&)> edge = [](const int32_t, const P& a, const P& b) { return Clear(a, b); };
  const std::function<bool(const int32_t, const P&)> state = [](const int32_t, const P& p) { return H(p) % 5 != 0; };
  prm::GrowRoadMap<P, G>(g, [&](const int32_t) { return RandomP(r); }, provider, Dist, state, edge, [](int64_t n) { return n >= 15; }, 3, Par(r));
  prm::UpdateRoadMapEdges<P, G>(g, edge, Dist, Par(r));
  return H(g);
}
uint64_t OwnGrids(Rng& r)
{
  auto d = MakeDense<vg::VoxelGrid<int32_t>>(r);
  auto s = MakeSparse(r);
  uint64_t h = HashSparse(s, r);
  for (int i = 0; i < 10; i++)
  {
    auto q = d.GetLocationMutable3d(Where(r));
    if (q) { q.Value() = i; }
    s.SetLocation3d(Where(r), vg::DSHVGSetType::SET_CELL, i);
  }
  return Combine(h, Combine(H(d.GetImmutableRawData()), HashSparse(s, r)));
}
uint64_t OwnNumbers(Rng& r)
{
  namespace m = cru::math;
  namespace cv = cru::conversions;
  const auto angle = [&] { return r.Real(-20, 20); };
  uint64_t h = H(m::EnforceContinuousRevoluteBounds(angle()));
  h = Combine(h, H(m::InterpolateContinuousRevolute(angle(), angle(), r.Unit())));
  h = Combine(h, H(m::Interpolate(r.Real(0, 1), r.Real(1, 2), r.Unit())));
  const Eigen::Isometry3d t1 = cv::TransformFromXYZRPY(1, 2, 3, r.Real(-1, 1), r.Real(-1, 1), r.Real(-1, 1));
  const Eigen::Isometry3d t2 = cv::TransformFromUrdfXYZRPY(3, 2, 1, r.Real(-1, 1), r.Real(-1, 1), r.Real(-1, 1));
  h = Combine(h, H(m::Interpolate(t1, t2, r.Unit()).matrix()));
  h = Combine(h, H(m::Distance(t1, t2)));
  h = Combine(h, H(cv::EulerAnglesFromIsometry3d(t1)));
  h = Combine(h, H(m::AverageContinuousRevolute({angle(), angle(), angle()}, {1, 2, 3})));
  h = Combine(h, H(m::AdjointFromTransform(t1)));
  const std::vector<double> v = {angle(), angle()}, u = {angle(), angle()};
  h = Combine(h, H(m::Add(v, u)));
  h = Combine(h, H(m::Distance(v, u)));
  return Combine(h, H(cru::utility::ClampValue<double>(angle(), -1.0, 1.0)));
}
// Loops, nested in one another and throwing, from several threads at once.
uint64_t OwnLoops(Rng& r)
{
  const DegreeOfParallelism outer = Par(r), inner = Par(r);
  const int64_t first = r.Int(-5, 5), n = r.Int(0, 12), m = r.Int(0, 6);
  std::vector<int64_t> cells(static_cast<size_t>(n * m), 0);
  const bool dynamic = r.Chance(0.5);
  const auto r_backend = r.Chance(0.5) ? par::ParallelForBackend::ASYNC : par::ParallelForBackend::BEST_AVAILABLE;
  const int64_t bad = r.Chance(0.3) ? first + r.Int(0, 12) : first - 1;
  const auto body = [&](const int32_t, const int64_t i)
  {
    par::StaticParallelForIndexLoop(inner, 0, m, [&](const int32_t, const int64_t j) { cells[static_cast<size_t>((i - first) * m + j)] += i * 100 + j; },
                                    r_backend);
    if (i == bad) { throw std::out_of_range("bad index"); }
  };
  bool threw = false;
  try
  {
    if (dynamic) { par::DynamicParallelForIndexLoop(outer, first, first + n, body, r_backend); }
    else { par::StaticParallelForIndexLoop(outer, first, first + n, body, r_backend); }
  }
  catch (const std::out_of_range&) { threw = true; }
  // Which indices ran before the exception is up to the schedule.
  return threw ? 7 : H(cells);
}
// A task planned and executed.
uint64_t OwnTask(Rng& r)
{
  namespace tp = cru::simple_task_planner;
  const int64_t goal = r.Int(0, 12);
  const auto step = [&](const int64_t by, const double cost, const std::string& name)
  {
    return tp::ActionPrimitiveSharedPtr<int64_t>(new tp::ActionPrimitiveWrapper<int64_t>(
        [](const int64_t&) { return true; },
        [by, cost](const int64_t& s)
        {
          tp::OutcomesWithCosts<int64_t> out;
          if (std::abs(s + by) < 40) { out.emplace_back(s + by, cost); }
          return out;
        },
        [by](const int64_t& s) { return std::vector<int64_t>{s + by}; }, name));
  };
  tp::ActionPrimitiveCollection<int64_t> collection;
  collection.RegisterPrimitive(step(1, 1, "up"));
  collection.RegisterPrimitive(step(5, 2 + r.Unit(), "leap"));
  collection.RegisterPrimitive(step(-1, 1, "down"));
  const std::vector<int64_t> starts = {r.Int(-12, 0), r.Int(-12, 12)};
  const auto plan = tp::PlanTaskStateSequence<int64_t>(collection, [&](const int64_t& s) { return s == goal; }, starts,
                                                       [&](const int64_t& s) { return 0.2 * static_cast<double>(std::abs(s - goal)); });
  uint64_t h = H(plan.PathCost());
  for (const auto& o : plan.Path()) { h = Combine(h, Combine(H(o.Outcome()), H(o.PrimitiveIndex()))); }
  return h;
}

const std::vector<std::pair<const char*, OwnJob>> kOwn = {
    {"generators", OwnGenerators}, {"trajectory", OwnTrajectory}, {"rrt", OwnRrt}, {"birrt", OwnBirrt}, {"roadmap", OwnRoadmap},
    {"grids", OwnGrids}, {"numbers", OwnNumbers}, {"loops", OwnLoops}, {"task", OwnTask}};

// ------------------------------------------------------------ drivers
void Threads(size_t n, const std::function<void(size_t)>& fn)
{
  std::atomic<size_t> waiting{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; t++)
  {
    ts.emplace_back([&, t]
    {
      waiting.fetch_add(1, std::memory_order_relaxed);
      while (waiting.load(std::memory_order_relaxed) < n) { std::this_thread::yield(); }
      fn(t);
    });
  }
  for (auto& t : ts) { t.join(); }
}

void Configure(Rng& r)
{
#ifdef VT_OMP_SHIM
  vt_omp_configure(static_cast<int>(r.Int(0, 1)), static_cast<int>(r.Int(0, 1)), 64, static_cast<int>(r.Int(1, 2)), r.Next());
#else
  (void)r;
#endif
}

// Run fn(job, seed) for every job from several threads at once, then alone.
void Together(Rng& r, const std::vector<size_t>& kinds, const std::function<uint64_t(size_t, uint64_t)>& fn,
              const std::function<std::string(size_t)>& name, const char* key)
{
  const size_t threads = r.Size(2, 5);
  const size_t per = r.Size(2, 4);
  std::vector<std::vector<std::pair<size_t, uint64_t>>> jobs(threads);
  for (auto& j : jobs)
  {
    for (size_t i = 0; i < per; i++) { j.emplace_back(r.Pick(kinds), r.Next()); }
  }
  std::vector<std::vector<uint64_t>> got(threads, std::vector<uint64_t>(per, 0));
  std::vector<std::string> failed(threads);
  Threads(threads, [&](size_t t)
  {
    try
    {
      for (size_t i = 0; i < per; i++) { got[t][i] = fn(jobs[t][i].first, jobs[t][i].second); }
    }
    catch (const std::exception& e) { failed[t] = e.what(); }
  });
  uint64_t h = threads;
  for (size_t t = 0; t < threads; t++)
  {
    VT_CHECK(failed[t].empty(), Str(key, "-threw"), failed[t]);
    for (size_t i = 0; i < per; i++)
    {
      const uint64_t alone = fn(jobs[t][i].first, jobs[t][i].second);
      VT_CHECK(alone == got[t][i], Str(key, "-answer-differs/", name(jobs[t][i].first)), "thread ", t, " job ", i, " of ", threads, " threads");
      h = Combine(h, alone);
      Count(Str(key, "_jobs"));
      Count("job_" + name(jobs[t][i].first));
    }
  }
  if (threads >= 4) { Count("cases_with_4_threads_or_more"); }
  Nontrivial(h);
}

void Shared(Rng& r, uint64_t c)
{
  Configure(r);
  const World w(r);
  // One kind (most conflicts), or any mixture.
  std::vector<size_t> kinds;
  if (r.Chance(0.5)) { kinds.push_back(c % kShared.size()); }
  else
  {
    for (size_t i = 0; i < 3; i++) { kinds.push_back(r.Size(0, kShared.size() - 1)); }
  }
  Together(r, kinds, [&](size_t k, uint64_t seed) { Rng mine(seed); return kShared[k].second(w, mine); },
           [](size_t k) { return kShared[k].first; }, "shared");
}

void Own(Rng& r, uint64_t c)
{
  Configure(r);
  std::vector<size_t> kinds;
  if (r.Chance(0.5)) { kinds.push_back(c % kOwn.size()); }
  else
  {
    for (size_t i = 0; i < 3; i++) { kinds.push_back(r.Size(0, kOwn.size() - 1)); }
  }
  Together(r, kinds, [&](size_t k, uint64_t seed) { Rng mine(seed); return kOwn[k].second(mine); },
           [](size_t k) { return kOwn[k].first; }, "own");
}

// Every thread writes its own cells of one grid.
template<typename T>
void Cells(Rng& r, uint64_t)
{
  const int64_t n[3] = {r.Int(1, 7), r.Int(1, 7), r.Int(1, 7)};
  vg::VoxelGrid<T> grid(Eigen::Isometry3d::Identity(), vg::GridSizes(1.0, n[0], n[1], n[2]), T(1), T(2));
  const int64_t total = n[0] * n[1] * n[2];
  const size_t threads = r.Size(2, 5);
  const uint64_t salt = r.Next();
  const auto owner = [&](int64_t i) { return Combine(salt, static_cast<uint64_t>(i)) % threads; };
  const auto value = [&](int64_t i) { return static_cast<T>(Combine(salt + 1, static_cast<uint64_t>(i)) % 200 + 3); };
  std::atomic<int64_t> refused{0};
  Threads(threads, [&](size_t t)
  {
    for (int64_t i = 0; i < total; i++)
    {
      if (owner(i) != t) { continue; }
      const int64_t x = i / (n[1] * n[2]), y = i / n[2] % n[1], z = i % n[2];
      bool ok = true;
      switch ((salt >> (i % 50)) % 4)
      {
        case 0: ok = grid.SetIndex(x, y, z, value(i)) == vg::AccessStatus::SUCCESS; break;
        case 1:
        {
          auto q = grid.GetIndexMutable(x, y, z);
          ok = static_cast<bool>(q);
          if (ok) { q.Value() = value(i); }
          break;
        }
        case 2:
          ok = grid.SetLocation(static_cast<double>(x) + 0.5, static_cast<double>(y) + 0.5, static_cast<double>(z) + 0.5, value(i)) ==
               vg::AccessStatus::SUCCESS;
          break;
        default: grid.GetDataIndexMutable(i) = value(i); break;
      }
      const auto back = grid.GetIndexImmutable(x, y, z);
      if (!ok || !back || !(back.Value() == value(i))) { refused.fetch_add(1, std::memory_order_relaxed); }
    }
  });
  VT_CHECK(refused.load() == 0, "own-cell-write-lost", refused.load(), " of ", total);
  for (int64_t i = 0; i < total; i++)
  {
    VT_CHECK(grid.GetDataIndexImmutable(i) == value(i), "cell-write-lost", "cell ", i, " of ", total);
  }
  Count("cells_written", static_cast<uint64_t>(total));
  Nontrivial(Combine(salt, static_cast<uint64_t>(total)));
}
}  // namespace

int main(int argc, char** argv)
{
  return Main(argc, argv, {{"shared", 700, 20000, Shared}, {"own", 300, 8000, Own},
                           {"cells_int", 150, 4000, Cells<int32_t>}, {"cells_byte", 150, 4000, Cells<uint8_t>}});
}
