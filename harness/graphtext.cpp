// P50: the text of edges, nodes, graphs and overlays, and edge equality.
#include "common.hpp"

#include <cmath>
#include <limits>
#include <memory>
#include <sstream>

#include <Eigen/Geometry>
#include <common_robotics_utilities/print.hpp>
#include <common_robotics_utilities/simple_graph.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace sg = cru::simple_graph;

namespace
{
// Every number in a text, in order.
std::vector<double> Numbers(const std::string& s)
{
  std::vector<double> out;
  for (size_t i = 0; i < s.size();)
  {
    const bool minus = s[i] == '-' && i + 1 < s.size();
    const size_t at = minus ? i + 1 : i;
    const bool digit = at < s.size() && std::isdigit(static_cast<unsigned char>(s[at])) != 0;
    const bool word = s.compare(at, 3, "inf") == 0 || s.compare(at, 3, "nan") == 0;
    if (digit || word)
    {
      char* end = nullptr;
      out.push_back(std::strtod(s.c_str() + i, &end));
      i = static_cast<size_t>(end - s.c_str());
    }
    else { i++; }
  }
  return out;
}

bool Same(double shown, double want)
{
  if (std::isnan(want)) { return std::isnan(shown); }
  if (std::isinf(want)) { return shown == want; }
  return std::abs(shown - want) <= 1e-6 + 1e-9 * std::abs(want);
}

void Append(std::vector<double>& to, const std::vector<double>& from) { to.insert(to.end(), from.begin(), from.end()); }
std::vector<double> Of(const sg::GraphEdge& e)
{
  return {static_cast<double>(e.GetFromIndex()), static_cast<double>(e.GetToIndex()), e.GetWeight(), static_cast<double>(e.GetScratchpad())};
}
template<typename V>
std::vector<double> Of(const sg::GraphNode<V>& n)
{
  std::vector<double> out = Numbers(cru::print::Print(n.GetValueImmutable()));
  for (const auto& e : n.GetInEdgesImmutable()) { Append(out, Of(e)); }
  for (const auto& e : n.GetOutEdgesImmutable()) { Append(out, Of(e)); }
  return out;
}
template<typename G>
std::vector<double> OfGraph(const G& g)
{
  std::vector<double> out;
  for (int64_t i = 0; i < g.Size(); i++) { Append(out, Of(g.GetNodeImmutable(i))); }
  return out;
}

template<typename T>
uint64_t Judge(const T& thing, const std::vector<double>& want, const char* key)
{
  const std::string text = thing.Print();
  std::ostringstream stream;
  stream << thing;
  VT_CHECK(stream.str() == text, Str(key, "/streamed"), Quote(stream.str()), " is not ", Quote(text));
  const std::vector<double> got = Numbers(text);
  VT_CHECK(got.size() == want.size(), Str(key, "/count"), got.size(), " numbers instead of ", want.size(), " in ", Quote(text));
  for (size_t i = 0; i < got.size(); i++)
  {
    VT_CHECK(Same(got[i], want[i]), Str(key, "/content"), "number ", i, " is ", got[i], " instead of ", want[i], " in ", Quote(text));
  }
  VT_CHECK(thing.Print() == text, Str(key, "/again"), "a second printing differs");
  Count(Str("printed_", key));
  return HashStr(text);
}

double Weight(Rng& r)
{
  switch (r.Int(0, 9))
  {
    case 0: return std::numeric_limits<double>::infinity();
    case 1: return -r.Real(0, 5);
    case 2: return 0;
    case 3: return r.Real(1e6, 1e9);
    case 4: return r.Real(0, 1e-3);
    default: return r.Real(0, 100);
  }
}
template<typename V> V RandomValue(Rng& r);
template<> int64_t RandomValue<int64_t>(Rng& r) { return r.Int(-1000, 1000); }
template<> double RandomValue<double>(Rng& r) { return static_cast<double>(r.Int(-1000, 1000)) / 8; }
template<> Eigen::Vector3d RandomValue<Eigen::Vector3d>(Rng& r) { return Eigen::Vector3d(RandomValue<double>(r), RandomValue<double>(r), RandomValue<double>(r)); }
template<> std::vector<int32_t> RandomValue<std::vector<int32_t>>(Rng& r)
{
  std::vector<int32_t> v(r.Size(0, 4));
  for (auto& x : v) { x = static_cast<int32_t>(r.Int(-9, 9)); }
  return v;
}

template<typename G>
void Connect(Rng& r, G& g, int64_t edges)
{
  for (; edges > 0 && g.Size() > 1; edges--)
  {
    const int64_t a = r.Int(0, g.Size() - 1), b = r.Int(0, g.Size() - 1);
    if (a == b) { continue; }
    if (r.Chance(0.5)) { g.AddEdgeBetweenNodes(a, b, Weight(r)); }
    else { g.AddEdgesBetweenNodes(a, b, Weight(r)); }
  }
}
template<typename N>
void Scribble(Rng& r, N& node)
{
  for (auto& e : node.GetOutEdgesMutable())
  {
    if (r.Chance(0.3)) { e.SetScratchpad(static_cast<uint64_t>(r.Int(0, 1) ? r.Int(0, 1000) : r.Int(0, int64_t{1} << 50))); }
  }
}

template<typename V>
uint64_t Texts(Rng& r)
{
  using G = sg::Graph<V>;
  using O = sg::NonOwningGraphOverlay<V, G>;
  G g;
  const int64_t n = r.Int(0, r.Chance(0.1) ? 120 : 9);
  for (int64_t i = 0; i < n; i++) { g.AddNode(RandomValue<V>(r)); }
  Connect(r, g, r.Int(0, 2 * n));
  for (int64_t i = 0; i < n; i++) { Scribble(r, g.GetNodeMutable(i)); }
  uint64_t h = Judge(g, OfGraph(g), "graph");
  for (int64_t i = 0; i < std::min<int64_t>(n, 12); i++)
  {
    const auto& node = g.GetNodeImmutable(i);
    h = Combine(h, Judge(node, Of(node), "node"));
    for (const auto& e : node.GetOutEdgesImmutable()) { h = Combine(h, Judge(e, Of(e), "edge")); }
  }
  const std::vector<uint8_t> before = [&]
  {
    std::vector<uint8_t> b;
    for (const double d : OfGraph(g)) { b.push_back(static_cast<uint8_t>(HashStr(Str(d)))); }
    return b;
  }();
  std::unique_ptr<O> o;
  if (r.Chance(0.5)) { o.reset(new O(g)); }
  else { o.reset(new sg::OwningGraphOverlay<V, G>(std::make_shared<const G>(g))); }
  std::vector<bool> own(static_cast<size_t>(n), false);
  const auto judge_overlay = [&]
  {
    h = Combine(h, Judge(*o, OfGraph(*o), "overlay"));
    // Which nodes the overlay holds itself, node by node.
    const std::string text = o->Print();
    std::vector<bool> shown;
    for (size_t at = 0; at < text.size(); at++)
    {
      if (text.compare(at, 9, "(overlay)") == 0) { shown.push_back(true); }
      else if (text.compare(at, 6, "(base)") == 0) { shown.push_back(false); }
    }
    VT_CHECK(shown == own, "overlay/origin", "marks ", shown.size(), " nodes of ", own.size(), " in ", Quote(text));
  };
  judge_overlay();
  for (int64_t k = r.Int(1, 4); k > 0; k--)
  {
    const int64_t size = o->Size();
    if (size == 0 || r.Chance(0.3))
    {
      o->AddNode(RandomValue<V>(r));
      own.push_back(true);
    }
    else if (size > 1 && r.Chance(0.6))
    {
      const int64_t a = r.Int(0, size - 1), b = (a + r.Int(1, size - 1)) % size;
      o->AddEdgeBetweenNodes(a, b, Weight(r));
      own[static_cast<size_t>(a)] = own[static_cast<size_t>(b)] = true;
    }
    else
    {
      const int64_t a = r.Int(0, size - 1);
      o->GetNodeMutable(a).GetValueMutable() = RandomValue<V>(r);
      own[static_cast<size_t>(a)] = true;
    }
    judge_overlay();
  }
  std::vector<uint8_t> after;
  for (const double d : OfGraph(g)) { after.push_back(static_cast<uint8_t>(HashStr(Str(d)))); }
  VT_CHECK(before == after, "base-changed", "the base graph changed");
  return h;
}

void Text(Rng& r, uint64_t c)
{
  uint64_t h = 0;
  switch (c % 4)
  {
    case 0: h = Texts<int64_t>(r); break;
    case 1: h = Texts<double>(r); break;
    case 2: h = Texts<Eigen::Vector3d>(r); break;
    default: h = Texts<std::vector<int32_t>>(r); break;
  }
  Nontrivial(h);
}

// Edges are equal exactly when ends, weight and scratchpad match.
void Equality(Rng& r, uint64_t)
{
  const sg::GraphEdge a(r.Int(0, 50), r.Int(0, 50), Weight(r), static_cast<uint64_t>(r.Int(0, 9)));
  sg::GraphEdge b = a;
  VT_CHECK(a == b && b == a, "equality/copy", "a copy differs from ", a.Print());
  const int64_t changed = r.Int(0, 4);
  const double tiny = std::nextafter(a.GetWeight(), a.GetWeight() > 1 ? 0.0 : 2.0);
  switch (changed)
  {
    case 0: b.SetFromIndex(a.GetFromIndex() + (r.Chance(0.5) ? r.Int(1, 5) : int64_t{1} << r.Int(0, 60))); break;
    case 1: b.SetToIndex(a.GetToIndex() + (r.Chance(0.5) ? r.Int(1, 5) : int64_t{1} << r.Int(0, 60))); break;
    case 2: b.SetWeight(r.Chance(0.5) ? tiny : a.GetWeight() > 0 ? -1.0 : 7.0); break;
    case 3: b.SetScratchpad(a.GetScratchpad() ^ (uint64_t{1} << r.Int(0, 63))); break;
    default:
      // Equal again after the detour.
      b.SetWeight(3);
      b.SetScratchpad(99);
      b.SetWeight(a.GetWeight());
      b.SetScratchpad(a.GetScratchpad());
      break;
  }
  const bool want = changed == 4;
  VT_CHECK((a == b) == want && (b == a) == want, "equality/changed", "edges ", a.Print(), " and ", b.Print(), " after change ", changed);
  Count(want ? "equal_edges" : "unequal_edges");
  Nontrivial(Combine(HashStr(a.Print()), static_cast<uint64_t>(changed)));
}
}  // namespace

int main(int argc, char** argv)
{
  return Main(argc, argv, {{"text", 2500, 60000, Text}, {"equality", 20000, 800000, Equality}});
}
