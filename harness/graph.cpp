// Graph storage, linkage, overlays, pruning and serialization.
// VT_PROP 13: structure; 14: pruning; 15: serialization.
#include "common.hpp"
#include "alloc_watch.hpp"

#include <memory>
#include <unordered_set>

#include <Eigen/Geometry>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace sg = cru::simple_graph;
using cru::parallelism::DegreeOfParallelism;

namespace
{
bool g_large = false;

// The same scenario on graphs past any likely size threshold.
template<void (*Fn)(Rng&, uint64_t)>
void L(Rng& rng, uint64_t c)
{
  g_large = true;
  struct Off
  {
    ~Off() { g_large = false; }
  } off;
  Fn(rng, c);
  Count("large_cases");
}

struct ModelNode
{
  int64_t value;
  std::vector<sg::GraphEdge> in;
  std::vector<sg::GraphEdge> out;
};
using Model = std::vector<ModelNode>;

template<typename V> V ToValue(int64_t v);
template<> int64_t ToValue<int64_t>(int64_t v) { return v; }
template<> Eigen::Vector4d ToValue<Eigen::Vector4d>(int64_t v)
{
  const double d = static_cast<double>(v);
  return Eigen::Vector4d(d, d + 0.5, -d, 1.0);
}

std::string EdgesStr(const std::vector<sg::GraphEdge>& es)
{
  std::string s;
  for (const auto& e : es)
  {
    s += Str(" ", e.GetFromIndex(), ">", e.GetToIndex(), "(", e.GetWeight(), ",", e.GetScratchpad(), ")");
  }
  return s;
}

template<typename V, typename G>
void Compare(const G& g, const Model& m, const std::string& key, const std::string& ctx)
{
  VT_CHECK(g.Size() == static_cast<int64_t>(m.size()), key, ctx, " size ", g.Size(), " expected ", m.size());
  for (size_t i = 0; i < m.size(); i++)
  {
    const auto& n = g.GetNodeImmutable(static_cast<int64_t>(i));
    VT_CHECK(n.GetValueImmutable() == ToValue<V>(m[i].value), key, ctx, " node ", i, " has the wrong value");
    VT_CHECK(n.GetInEdgesImmutable() == m[i].in, key, ctx, " node ", i, " in-edges",
             EdgesStr(n.GetInEdgesImmutable()), " expected", EdgesStr(m[i].in));
    VT_CHECK(n.GetOutEdgesImmutable() == m[i].out, key, ctx, " node ", i, " out-edges",
             EdgesStr(n.GetOutEdgesImmutable()), " expected", EdgesStr(m[i].out));
  }
}

// What linkage means, written from its documentation: each edge sits on its own
// endpoint, joins two different existing nodes, and is known to the other one.
bool RefLinkage(const Model& m)
{
  const int64_t n = static_cast<int64_t>(m.size());
  std::set<std::pair<int64_t, int64_t>> ins, outs;
  for (int64_t i = 0; i < n; i++)
  {
    for (const auto& e : m[static_cast<size_t>(i)].in)
    {
      if (e.GetToIndex() != i) { return false; }
      ins.emplace(e.GetFromIndex(), e.GetToIndex());
    }
    for (const auto& e : m[static_cast<size_t>(i)].out)
    {
      if (e.GetFromIndex() != i) { return false; }
      outs.emplace(e.GetFromIndex(), e.GetToIndex());
    }
  }
  for (const auto* s : {&ins, &outs})
  {
    for (const auto& p : *s)
    {
      if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n || p.first == p.second)
      {
        return false;
      }
    }
  }
  return ins == outs;
}

/// Whether the edges a graph holds match up.
template<typename G>
bool SoundEdges(const G& g)
{
  Model m(static_cast<size_t>(g.Size()));
  for (size_t i = 0; i < m.size(); i++)
  {
    m[i].in = g.GetNodeImmutable(static_cast<int64_t>(i)).GetInEdgesImmutable();
    m[i].out = g.GetNodeImmutable(static_cast<int64_t>(i)).GetOutEdgesImmutable();
  }
  return RefLinkage(m);
}

Model RandomModel(Rng& rng, size_t max_nodes, double bidirectional)
{
  Model m(g_large ? rng.Size(300, 3000) : rng.Size(0, max_nodes));
  for (auto& n : m) { n.value = rng.Int(-1000, 1000); }
  if (m.size() >= 2)
  {
    // One node can carry most of the edges.
    const double hub = rng.Chance(0.3) ? 0.6 : 0.0;
    const size_t hub_at = rng.Size(0, m.size() - 1);
    for (size_t k = rng.Size(0, 3 * m.size()); k > 0; k--)
    {
      const size_t a = rng.Chance(hub) ? hub_at : rng.Size(0, m.size() - 1);
      const size_t b = (a != hub_at && rng.Chance(hub)) ? hub_at : rng.Size(0, m.size() - 1);
      if (a == b) { continue; }
      const sg::GraphEdge e(static_cast<int64_t>(a), static_cast<int64_t>(b), rng.Wild(), rng.Next() % 5);
      m[a].out.push_back(e);
      m[b].in.push_back(e);
      if (rng.Chance(bidirectional))
      {
        const sg::GraphEdge r(static_cast<int64_t>(b), static_cast<int64_t>(a), e.GetWeight(), rng.Next() % 5);
        m[b].out.push_back(r);
        m[a].in.push_back(r);
      }
    }
  }
  return m;
}

template<typename V>
sg::GraphNode<V> MakeNode(const ModelNode& n)
{
  return sg::GraphNode<V>(ToValue<V>(n.value), n.in, n.out);
}

template<typename V>
std::vector<sg::GraphNode<V>, sg::GraphNodeAllocator<V>> MakeNodes(const Model& m)
{
  std::vector<sg::GraphNode<V>, sg::GraphNodeAllocator<V>> v;
  for (const auto& n : m) { v.push_back(MakeNode<V>(n)); }
  return v;
}

uint64_t ModelHash(const Model& m)
{
  uint64_t h = m.size();
  for (const auto& n : m)
  {
    h = Combine(h, static_cast<uint64_t>(n.value));
    for (const auto& e : n.out)
    {
      h = Combine(h, Combine(static_cast<uint64_t>(e.GetFromIndex()), static_cast<uint64_t>(e.GetToIndex())));
    }
    h = Combine(h, n.in.size());
  }
  return h;
}

// One random operation applied to the graph and to the model; both must agree.
template<typename V, typename G>
void Step(Rng& rng, G& g, Model& m, const std::string& which, std::string& log)
{
  const int64_t n = static_cast<int64_t>(m.size());
  const int op = static_cast<int>(rng.Int(0, 9));
  if (op <= 1 || n == 0)
  {
    ModelNode nn;
    nn.value = rng.Int(-1000, 1000);
    int64_t idx;
    if (rng.Chance(0.5)) { idx = g.AddNode(ToValue<V>(nn.value)); }
    else { idx = g.AddNode(sg::GraphNode<V>(ToValue<V>(nn.value))); }
    log += Str(" +", idx);
    VT_CHECK(idx == n, which + "/add-node-index", "AddNode returned ", idx, " with ", n, " nodes;", log);
    m.push_back(nn);
    return;
  }
  if (op <= 7)
  {
    int64_t a = rng.Int(0, n - 1), b = rng.Int(0, n - 1);
    if (rng.Chance(0.1)) { a = rng.Chance(0.5) ? rng.Int(-3, -1) : n + rng.Int(0, 3); }
    if (rng.Chance(0.1)) { b = rng.Chance(0.5) ? rng.Int(-3, -1) : n + rng.Int(0, 3); }
    const double w = rng.Wild();
    const bool both = op >= 5;
    log += Str(both ? " B" : " E", a, ",", b);
    const Thrown t = Catch([&] {
      if (both) { g.AddEdgesBetweenNodes(a, b, w); }
      else { g.AddEdgeBetweenNodes(a, b, w); }
    });
    const bool ok = a >= 0 && b >= 0 && a < n && b < n && a != b;
    VT_CHECK((t == Thrown::NONE) == ok, which + "/edge-acceptance", "edge ", a, "->", b, " of ", n,
             " nodes was ", t == Thrown::NONE ? "accepted" : "refused", ";", log);
    Count(ok ? "edges_added" : "bad_edges_refused");
    if (ok)
    {
      const sg::GraphEdge e(a, b, w);
      m[static_cast<size_t>(a)].out.push_back(e);
      m[static_cast<size_t>(b)].in.push_back(e);
      if (both)
      {
        const sg::GraphEdge r(b, a, w);
        m[static_cast<size_t>(b)].out.push_back(r);
        m[static_cast<size_t>(a)].in.push_back(r);
      }
    }
    return;
  }
  const int64_t i = rng.Int(0, n - 1);
  const size_t si = static_cast<size_t>(i);
  if (op == 8)
  {
    m[si].value = rng.Int(-1000, 1000);
    g.GetNodeMutable(i).GetValueMutable() = ToValue<V>(m[si].value);
    log += Str(" V", i);
  }
  else if (!m[si].out.empty())
  {
    const size_t k = rng.Size(0, m[si].out.size() - 1);
    const double w = rng.Wild();
    m[si].out[k].SetWeight(w);
    g.GetNodeMutable(i).GetOutEdgesMutable().at(k).SetWeight(w);
    log += Str(" W", i);
  }
  const int64_t bad = rng.Chance(0.5) ? -1 - rng.Int(0, 2) : n + rng.Int(0, 2);
  VT_CHECK(!g.IndexInRange(bad) && g.IndexInRange(i), which + "/index-range", "IndexInRange wrong at ", bad, " or ", i);
  VT_CHECK(Catch([&] { g.GetNodeImmutable(bad); }) != Thrown::NONE, which + "/node-out-of-range",
           "GetNodeImmutable(", bad, ") returned a node of ", n);
  VT_CHECK(Catch([&] { g.GetNodeMutable(bad); }) != Thrown::NONE, which + "/node-out-of-range",
           "GetNodeMutable(", bad, ") returned a node of ", n);
}

template<typename V>
void History(Rng& rng, uint64_t c)
{
  using G = sg::Graph<V>;
  Model m;
  std::string log;
  G g = (c % 3 == 0) ? G(rng.Int(0, 10)) : G();
  const size_t ops = g_large ? rng.Size(1000, 4000) : rng.Size(5, 60);
  for (size_t k = 0; k < ops; k++) { Step<V>(rng, g, m, "graph", log); }
  Compare<V>(g, m, "graph/contents", log);
  VT_CHECK(g.CheckGraphLinkage(), "graph/linkage", "graph built only with its own operations fails its linkage check;", log);
  if (rng.Chance(0.3)) { g.ShrinkToFit(); Compare<V>(g, m, "graph/contents", log + " shrink"); }
  Count("histories");

  // Overlay: behaves as a full copy, and the base never changes.
  const Model base = m;
  auto shared = std::make_shared<const G>(g);
  const auto run_overlay = [&](auto& ov, const G& base_graph, const std::string& which)
  {
    Model om = base;
    std::string olog = log + " |";
    Compare<V>(ov, om, which + "/contents", olog);
    for (size_t k = g_large ? rng.Size(200, 1500) : rng.Size(1, 40); k > 0; k--)
    {
      Step<V>(rng, ov, om, which, olog);
      Count("overlay_operations");
    }
    Compare<V>(ov, om, which + "/contents", olog);
    VT_CHECK(ov.CheckGraphLinkage(), which + "/linkage", "overlay fails linkage;", olog);
    Compare<V>(base_graph, base, which + "/base-changed", olog);
    // Pruned materialisation must also see the overlay, not the base.
    const G flat = sg::PruneGraph<typename std::decay<decltype(ov)>::type, G>(
        ov, {}, DegreeOfParallelism::None());
    Compare<V>(flat, om, which + "/flattened", olog);
    auto copy = ov;
    Model cm = om;
    for (size_t k = 0; k < 5; k++) { Step<V>(rng, copy, cm, which, olog); }
    Compare<V>(copy, cm, which + "/copy", olog);
    Compare<V>(ov, om, which + "/copy-aliases-original", olog);
  };
  {
    sg::NonOwningGraphOverlay<V, G> ov(g);
    run_overlay(ov, g, "overlay");
  }
  {
    auto ov = std::make_unique<sg::OwningGraphOverlay<V, G>>(shared);
    std::weak_ptr<const G> watch = shared;
    const G* raw = shared.get();
    shared.reset();
    VT_CHECK(!watch.expired(), "owning-overlay/lifetime", "owning overlay let its base graph die");
    run_overlay(*ov, *raw, "owning-overlay");
    ov.reset();
    VT_CHECK(watch.expired(), "owning-overlay/lifetime", "owning overlay leaked its base graph");
  }
  Nontrivial(ModelHash(m));
  Sample(log);
}

/// Breaks up to two edge copies of m; the result may still have valid linkage.
std::string BreakLinks(Rng& rng, Model& m)
{
  const int faults = static_cast<int>(rng.Int(0, 2));
  std::string what;
  for (int f = 0; f < faults && !m.empty(); f++)
  {
    const size_t i = rng.Size(0, m.size() - 1);
    auto& list = rng.Chance(0.5) ? m[i].in : m[i].out;
    if (list.empty()) { continue; }
    const size_t k = rng.Size(0, list.size() - 1);
    const int64_t n = static_cast<int64_t>(m.size());
    const int kind = static_cast<int>(rng.Int(0, 5));
    what += Str(" fault", kind, "@", i);
    if (kind == 0) { list.erase(list.begin() + static_cast<long>(k)); }
    else if (kind == 1) { list[k].SetFromIndex(rng.Int(-1, n)); }
    else if (kind == 2) { list[k].SetToIndex(rng.Int(-1, n)); }
    else if (kind == 3)
    {
      const sg::GraphEdge e = list[k];
      m[rng.Size(0, m.size() - 1)].in.push_back(e);
    }
    else if (kind == 4) { list.push_back(sg::GraphEdge(static_cast<int64_t>(i), static_cast<int64_t>(i), 1.0)); }
    else { list[k].SetToIndex(std::numeric_limits<int64_t>::max() - rng.Int(0, 3)); }
  }
  return what;
}

template<typename V>
void Linkage(Rng& rng, uint64_t)
{
  using G = sg::Graph<V>;
  Model m = RandomModel(rng, 8, 0.4);
  const std::string what = BreakLinks(rng, m);
  const bool expect = RefLinkage(m);
  G g;
  g.GetNodesMutable() = MakeNodes<V>(m);
  const bool got = g.CheckGraphLinkage();
  VT_CHECK(got == expect, "linkage/verdict", "CheckGraphLinkage says ", got, " expected ", expect, ";", what);
  const Thrown t = Catch([&] { G h(MakeNodes<V>(m)); Compare<V>(h, m, "linkage/constructor-contents", what); });
  VT_CHECK((t == Thrown::NONE) == expect, "linkage/constructor", "constructor from nodes ",
           t == Thrown::NONE ? "accepted" : "refused", " a graph with linkage ", expect, ";", what);
  const sg::NonOwningGraphOverlay<V, G> ov(g);
  VT_CHECK(ov.CheckGraphLinkage() == expect, "linkage/overlay-verdict", "overlay linkage differs;", what);
  Count(expect ? "linkage_valid" : "linkage_invalid");
  Nontrivial(Combine(ModelHash(m), expect));
}

void KnnAdapter(Rng& rng, uint64_t)
{
  Model m = RandomModel(rng, 8, 0.0);
  sg::Graph<int64_t> g(MakeNodes<int64_t>(m));
  const int64_t limit = rng.Int(-2, static_cast<int64_t>(m.size()) + 2);
  const bool ok = limit >= 0 && limit <= g.Size();
  const Thrown t = Catch([&] {
    sg::GraphKNNAdapter<sg::Graph<int64_t>> a(g, limit);
    VT_CHECK(a.size() == static_cast<size_t>(limit), "adapter/size", "size ", a.size(), " limit ", limit);
    for (size_t i = 0; i < a.size(); i++)
    {
      VT_CHECK(a[i].GetValueImmutable() == m[i].value, "adapter/element", "element ", i);
    }
  });
  VT_CHECK((t == Thrown::NONE) == ok, "adapter/limit", "limit ", limit, " on ", g.Size(), " nodes");
  Nontrivial(Combine(m.size(), static_cast<uint64_t>(limit + 5)));
}

template<typename V>
void Prune(Rng& rng, uint64_t)
{
  using G = sg::Graph<V>;
  const Model m = RandomModel(rng, rng.Chance(0.1) ? 200 : 24, 0.4);
  const G g(MakeNodes<V>(m));
  std::unordered_set<int64_t> prune;
  const double p = rng.Pick<double>({0.0, 0.1, 0.5, 0.9, 1.0});
  for (size_t i = 0; i < m.size(); i++)
  {
    if (rng.Chance(p)) { prune.insert(static_cast<int64_t>(i)); }
  }
  Model want;
  std::map<int64_t, int64_t> remap;
  for (size_t i = 0; i < m.size(); i++)
  {
    if (!prune.count(static_cast<int64_t>(i)))
    {
      const int64_t at = static_cast<int64_t>(remap.size());
      remap[static_cast<int64_t>(i)] = at;
    }
  }
  for (size_t i = 0; i < m.size(); i++)
  {
    if (prune.count(static_cast<int64_t>(i))) { continue; }
    ModelNode n;
    n.value = m[i].value;
    const auto keep = [&](const std::vector<sg::GraphEdge>& es)
    {
      std::vector<sg::GraphEdge> r;
      for (const auto& e : es)
      {
        if (!prune.count(e.GetFromIndex()) && !prune.count(e.GetToIndex()))
        {
          r.emplace_back(remap.at(e.GetFromIndex()), remap.at(e.GetToIndex()), e.GetWeight(), e.GetScratchpad());
        }
      }
      return r;
    };
    n.in = keep(m[i].in);
    n.out = keep(m[i].out);
    want.push_back(n);
  }
  const std::string ctx = Str(m.size(), " nodes, pruning ", VecStr(std::vector<int64_t>(prune.begin(), prune.end())));
  for (const int threads : {0, 1, 3, 8})
  {
    const DegreeOfParallelism par = threads == 0 ? DegreeOfParallelism::None() : DegreeOfParallelism(threads);
    const G pruned = g.MakePrunedCopy(prune, par);
    Compare<V>(pruned, want, "prune/contents", Str(ctx, " threads ", threads));
    VT_CHECK(pruned.CheckGraphLinkage(), "prune/linkage", ctx, " threads ", threads);
    Count("prunes");
  }
  Compare<V>(g, m, "prune/original-changed", ctx);
  // The same through an overlay that has extra edges.
  if (m.size() >= 2)
  {
    sg::NonOwningGraphOverlay<V, G> ov(g);
    Model om = m;
    std::string log;
    for (int k = 0; k < 6; k++) { Step<V>(rng, ov, om, "prune-overlay", log); }
    const G flat(MakeNodes<V>(om));
    const G a = sg::PruneGraph<sg::NonOwningGraphOverlay<V, G>, G>(ov, prune, DegreeOfParallelism(4));
    const G b = flat.MakePrunedCopy(prune, DegreeOfParallelism::None());
    VT_CHECK(a.Size() == b.Size(), "prune/overlay", ctx);
    for (int64_t i = 0; i < a.Size(); i++)
    {
      VT_CHECK(a.GetNodeImmutable(i).GetValueImmutable() == b.GetNodeImmutable(i).GetValueImmutable() &&
               a.GetNodeImmutable(i).GetInEdgesImmutable() == b.GetNodeImmutable(i).GetInEdgesImmutable() &&
               a.GetNodeImmutable(i).GetOutEdgesImmutable() == b.GetNodeImmutable(i).GetOutEdgesImmutable(),
               "prune/overlay", "node ", i, " differs from pruning the flattened graph; ", ctx);
    }
    VT_CHECK(a.CheckGraphLinkage(), "prune/overlay", "linkage; ", ctx);
  }
  uint64_t edges = 0;
  for (const auto& n : want) { edges += n.out.size(); }
  Count("kept_edges_checked", edges);
  Nontrivial(Combine(ModelHash(m), prune.size()));
  Sample(ctx);
}

using Buffer = std::vector<uint8_t>;
namespace ser = cru::serialization;

template<typename V> uint64_t SerV(const V& v, Buffer& b);
template<> uint64_t SerV<int64_t>(const int64_t& v, Buffer& b) { return ser::SerializeMemcpyable<int64_t>(v, b); }
template<> uint64_t SerV<Eigen::Vector4d>(const Eigen::Vector4d& v, Buffer& b) { return ser::SerializeVector4d(v, b); }
template<typename V> ser::Deserialized<V> DesV(const Buffer& b, uint64_t o);
template<> ser::Deserialized<int64_t> DesV<int64_t>(const Buffer& b, uint64_t o) { return ser::DeserializeMemcpyable<int64_t>(b, o); }
template<> ser::Deserialized<Eigen::Vector4d> DesV<Eigen::Vector4d>(const Buffer& b, uint64_t o) { return ser::DeserializeVector4d(b, o); }

// Single nodes and edges, each behind other bytes.
template<typename V>
void Parts(Rng& rng, const sg::Graph<V>& g)
{
  using N = sg::GraphNode<V>;
  using E = sg::GraphEdge;
  const auto part = [&](const auto& item, const auto& write, const auto& read, const auto& same, const char* key)
  {
    Buffer b(rng.Size(0, 9), 0x5a);
    const size_t at = b.size();
    const uint64_t wrote = write(item, b);
    VT_CHECK(wrote == b.size() - at && wrote > 0, Str("serialize/", key, "-size"), "claims ", wrote, " wrote ", b.size() - at);
    for (const size_t len : {at, at + rng.Size(0, wrote - 1), b.size() - 1})
    {
      Buffer t(b.begin(), b.begin() + static_cast<long>(len));
      t.shrink_to_fit();
      VT_CHECK(Catch([&] { (void)read(t, at); }) != Thrown::NONE, Str("serialize/", key, "-truncated"), len - at, " of ", wrote, " bytes");
    }
    b.resize(b.size() + rng.Size(0, 9), 0xa5);
    b.shrink_to_fit();
    const auto back = read(b, at);
    VT_CHECK(back.BytesRead() == wrote, Str("serialize/", key, "-bytes-read"), "read ", back.BytesRead(), " wrote ", wrote);
    VT_CHECK(same(back.Value(), item), Str("serialize/", key, "-contents"), "differs");
    Count(Str("single_", key, "s"));
  };
  const auto same_edge = [](const E& a, const E& b)
  {
    return a.GetFromIndex() == b.GetFromIndex() && a.GetToIndex() == b.GetToIndex() && a.GetWeight() == b.GetWeight()
           && a.GetScratchpad() == b.GetScratchpad();
  };
  const auto same_edges = [&](const std::vector<E>& a, const std::vector<E>& b)
  { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), same_edge); };
  const auto same_node = [&](const N& a, const N& b)
  {
    return a.GetValueImmutable() == b.GetValueImmutable() && same_edges(a.GetInEdgesImmutable(), b.GetInEdgesImmutable())
           && same_edges(a.GetOutEdgesImmutable(), b.GetOutEdgesImmutable());
  };
  for (int k = 0; k < 3 && g.Size() > 0; k++)
  {
    const N& node = g.GetNodeImmutable(rng.Int(0, g.Size() - 1));
    part(node, [](const N& n, Buffer& b) { return N::Serialize(n, b, SerV<V>); },
         [](const Buffer& b, uint64_t at) { return N::Deserialize(b, at, DesV<V>); }, same_node, "node");
    if (!node.GetOutEdgesImmutable().empty())
    {
      part(rng.Pick(node.GetOutEdgesImmutable()), [](const E& e, Buffer& b) { return E::Serialize(e, b); },
           [](const Buffer& b, uint64_t at) { return E::Deserialize(b, at); }, same_edge, "edge");
    }
  }
}

template<typename V>
void RoundTrip(Rng& rng, uint64_t)
{
  using G = sg::Graph<V>;
  const Model m = RandomModel(rng, 12, 0.3);
  const G g(MakeNodes<V>(m));
  Buffer b(rng.Size(0, 20), 0xab);
  const Buffer prefix = b;
  const uint64_t wrote = G::Serialize(g, b, SerV<V>);
  VT_CHECK(wrote == b.size() - prefix.size(), "serialize/size", "claims ", wrote, " wrote ", b.size() - prefix.size());
  VT_CHECK(std::equal(prefix.begin(), prefix.end(), b.begin()), "serialize/prefix", "earlier bytes changed");
  const size_t end = b.size();
  b.resize(end + rng.Size(0, 9), 0xcd);
  b.shrink_to_fit();
  const auto r = G::Deserialize(b, prefix.size(), DesV<V>);
  VT_CHECK(r.BytesRead() == wrote, "serialize/bytes-read", "read ", r.BytesRead(), " wrote ", wrote);
  Compare<V>(r.Value(), m, "serialize/contents", "round trip");
  Count("round_trips");
  Parts<V>(rng, g);
  // Truncation never yields a graph.
  const size_t step = std::max<size_t>(1, wrote / 40);
  for (size_t len = prefix.size(); len < end; len += (!g_large && rng.Chance(0.2)) ? 1 : step)
  {
    Buffer t(b.begin(), b.begin() + static_cast<long>(len));
    t.shrink_to_fit();
    VT_CHECK(Catch([&] { G::Deserialize(t, prefix.size(), DesV<V>); }) != Thrown::NONE, "serialize/truncated",
             "graph decoded from ", len - prefix.size(), " of ", wrote, " bytes");
    Count("truncations");
  }
  // Damage: rejected, or a graph whose linkage is sound.
  G target(MakeNodes<V>(m));
  for (int k = 0; k < 12; k++)
  {
    Buffer d(b.begin() + static_cast<long>(prefix.size()), b.begin() + static_cast<long>(end));
    for (size_t j = rng.Size(1, 3); j > 0; j--)
    {
      const size_t at = rng.Size(0, d.size() - 1);
      if (rng.Chance(0.3) && at + 8 <= d.size())
      {
        const uint64_t v = rng.Chance(0.5) ? ~uint64_t{0} - rng.Next() % 4 : (uint64_t{1} << rng.Int(20, 63));
        std::memcpy(d.data() + at, &v, 8);
      }
      else { d[at] = static_cast<uint8_t>(rng.Next()); }
    }
    LargestAlloc() = 0;
    uint64_t read = 0;
    const Thrown t = Catch([&] { read = target.DeserializeSelf(d, 0, DesV<V>); });
    VT_CHECK(LargestAlloc() <= 65536 + 64 * d.size(), "serialize/allocation", "asked for ", LargestAlloc().load());
    VT_CHECK(SoundEdges(target), "serialize/broken-linkage", "damaged buffer left a graph with broken linkage");
    if (t == Thrown::NONE) { VT_CHECK(read <= d.size(), "serialize/overread", read, " of ", d.size()); }
    Count(t == Thrown::NONE ? "damage_decoded" : "damage_rejected");
  }
  // Well-formed encodings of graphs whose edges do not match up: the same, and
  // such a graph is never handed out.
  for (int k = 0; k < (g_large ? 2 : 6); k++)
  {
    Model bm = m;
    BreakLinks(rng, bm);
    const bool sound = RefLinkage(bm);
    G broken;
    broken.GetNodesMutable() = MakeNodes<V>(bm);
    Buffer d;
    if (Catch([&] { broken.SerializeSelf(d, SerV<V>); }) != Thrown::NONE) { continue; }
    d.shrink_to_fit();
    const Thrown t = Catch([&] { target.DeserializeSelf(d, 0, DesV<V>); });
    VT_CHECK(SoundEdges(target), "serialize/broken-linkage", "an encoding of mismatched edges left a graph with broken linkage");
    if (sound)
    {
      VT_CHECK(t == Thrown::NONE, "serialize/refused", "encoding of a sound graph refused");
      Compare<V>(target, bm, "serialize/contents", "decoded into an existing graph");
    }
    Count(sound ? "sound_encodings" : "mismatched_encodings");
  }
  Nontrivial(ModelHash(m));
}

void DijkstraSer(Rng& rng, uint64_t)
{
  namespace gs = cru::simple_graph_search;
  const size_t n = g_large ? rng.Size(1000, 40000) : rng.Size(0, 20);
  std::vector<int64_t> prev;
  std::vector<double> dist;
  for (size_t i = 0; i < n; i++)
  {
    prev.push_back(rng.Int(-1, 30));
    dist.push_back(rng.Chance(0.2) ? std::numeric_limits<double>::infinity() : rng.Wild());
  }
  const gs::DijkstrasResult r(prev, dist);
  Buffer b(rng.Size(0, 9), 1);
  const size_t off = b.size();
  const uint64_t wrote = gs::DijkstrasResult::Serialize(r, b);
  VT_CHECK(wrote == b.size() - off, "dijkstra-serialize/size", wrote);
  const auto back = gs::DijkstrasResult::Deserialize(b, off);
  VT_CHECK(back.BytesRead() == wrote && back.Value().Size() == static_cast<int64_t>(n), "dijkstra-serialize/size",
           back.BytesRead(), " of ", wrote);
  for (size_t i = 0; i < n; i++)
  {
    VT_CHECK(back.Value().GetPreviousIndex(static_cast<int64_t>(i)) == prev[i] &&
             back.Value().GetNodeDistance(static_cast<int64_t>(i)) == dist[i], "dijkstra-serialize/value", i);
  }
  for (size_t len = off; len < b.size(); len += g_large ? b.size() / 20 : 3)
  {
    const Buffer t(b.begin(), b.begin() + static_cast<long>(len));
    VT_CHECK(Catch([&] { gs::DijkstrasResult::Deserialize(t, off); }) != Thrown::NONE, "dijkstra-serialize/truncated", len);
  }
  std::vector<double> other(n + 1 + rng.Size(0, 2), 0.0);
  VT_CHECK(Catch([&] { gs::DijkstrasResult x(prev, other); }) != Thrown::NONE, "dijkstra-serialize/mismatch",
           "result accepted with ", prev.size(), " predecessors and ", other.size(), " distances");
  Buffer mm;
  ser::SerializeMemcpyableVectorLike<int64_t>(prev, mm);
  ser::SerializeMemcpyableVectorLike<double>(other, mm);
  VT_CHECK(Catch([&] { gs::DijkstrasResult::Deserialize(mm, 0); }) != Thrown::NONE, "dijkstra-serialize/mismatch",
           "mismatched sizes decoded");
  Count("dijkstra_results");
  Nontrivial(Combine(n, HashStr(std::string(b.begin(), b.end()))));
}
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 13
  return Main(argc, argv, {{"history", 1200, 30000, History<int64_t>},
                           {"history_eigen", 600, 10000, History<Eigen::Vector4d>},
                           {"history_large", 12, 200, L<History<int64_t>>},
                           {"linkage_large", 60, 1500, L<Linkage<int64_t>>},
                           {"linkage", 6000, 200000, Linkage<int64_t>},
                           {"knn_adapter", 200, 2000, KnnAdapter}});
#elif VT_PROP == 14
  return Main(argc, argv, {{"prune", 1500, 40000, Prune<int64_t>},
                           {"prune_large", 16, 300, L<Prune<int64_t>>},
                           {"prune_eigen", 500, 8000, Prune<Eigen::Vector4d>}});
#else
  return Main(argc, argv, {{"graph", 700, 20000, RoundTrip<int64_t>},
                           {"graph_eigen", 300, 8000, RoundTrip<Eigen::Vector4d>},
                           {"graph_large", 8, 150, L<RoundTrip<int64_t>>},
                           {"dijkstra_large", 12, 200, L<DijkstraSer>},
                           {"dijkstra", 500, 5000, DijkstraSer}});
#endif
}
