// P31: planner trees.  P32: RRT.  P33: BiRRT.  P34: the planner helper functions.
#include "common.hpp"
#include "alloc_watch.hpp"

#include <deque>
#include <list>
#include <thread>

#include <common_robotics_utilities/simple_rrt_planner.hpp>

using namespace common_robotics_utilities;
namespace rrt = simple_rrt_planner;
using vt::Rng;
using vt::Thrown;

namespace
{
// ---------------------------------------------------------------- P31
struct ModelNode
{
  std::string value;
  int64_t parent = -1;
  std::vector<int64_t> children;
};
using Tree = rrt::SimpleRRTPlannerTree<std::string>;
using NodeVec = rrt::SimpleRRTPlannerStateVector<std::string>;

std::string RandomText(Rng& rng)
{
  std::string s;
  const int64_t n = rng.Int(0, 30);
  for (int64_t i = 0; i < n; i++) { s.push_back(static_cast<char>(rng.Int(32, 126))); }
  return s;
}

template<typename TreeLike>
void CompareTree(const TreeLike& tree, const std::vector<ModelNode>& model, const char* when)
{
  VT_CHECK(tree.Size() == static_cast<int64_t>(model.size()) && tree.Empty() == model.empty(),
           "tree/size", when, ": ", tree.Size(), " nodes, expected ", model.size());
  for (size_t i = 0; i < model.size(); i++)
  {
    const auto& n = tree.GetNodeImmutable(static_cast<int64_t>(i));
    VT_CHECK(n.GetValueImmutable() == model[i].value, "tree/value", when, ": node ", i);
    VT_CHECK(n.GetParentIndex() == model[i].parent, "tree/parent", when, ": node ", i, " parent ",
             n.GetParentIndex(), " expected ", model[i].parent);
    VT_CHECK(n.GetChildIndices() == model[i].children, "tree/children", when, ": node ", i, " ",
             vt::VecStr(n.GetChildIndices()), " expected ", vt::VecStr(model[i].children));
  }
}

bool LinkageOracle(const NodeVec& nodes)
{
  const int64_t n = static_cast<int64_t>(nodes.size());
  for (int64_t i = 0; i < n; i++)
  {
    const int64_t p = nodes[static_cast<size_t>(i)].GetParentIndex();
    if (p >= i) { return false; }
    if (p >= 0)
    {
      const auto& c = nodes[static_cast<size_t>(p)].GetChildIndices();
      if (std::count(c.begin(), c.end(), i) == 0) { return false; }
    }
    for (const int64_t c : nodes[static_cast<size_t>(i)].GetChildIndices())
    {
      if (c <= i || c >= n || nodes[static_cast<size_t>(c)].GetParentIndex() != i) { return false; }
    }
  }
  return true;
}

std::vector<ModelNode> RandomTree(Rng& rng, Tree& tree, int64_t ops, bool hostile)
{
  std::vector<ModelNode> model;
  for (int64_t k = 0; k < ops; k++)
  {
    const int64_t n = static_cast<int64_t>(model.size());
    const std::string v = RandomText(rng);
    const int64_t what = rng.Int(0, 19);
    if (n == 0 || what < 3)
    {
      // The value may alias a node of the same tree.
      const bool alias = n > 0 && rng.Chance(0.3);
      const int64_t from = alias ? rng.Int(0, n - 1) : 0;
      const std::string expected = alias ? model[static_cast<size_t>(from)].value : v;
      const int64_t idx = alias ? tree.AddNode(tree.GetNodeImmutable(from).GetValueImmutable()) : tree.AddNode(v);
      VT_CHECK(idx == n, "tree/index", "AddNode gave ", idx, " for node ", n);
      model.push_back({expected, -1, {}});
    }
    else if (what < 17 || !hostile)
    {
      const int64_t parent = rng.Chance(0.3) ? n - 1 : rng.Int(0, n - 1);
      const bool alias = rng.Chance(0.2);
      const int64_t from = rng.Int(0, n - 1);
      const std::string expected = alias ? model[static_cast<size_t>(from)].value : v;
      const int64_t idx = alias ? tree.AddNodeAndConnect(tree.GetNodeImmutable(from).GetValueImmutable(), parent)
                                : tree.AddNodeAndConnect(v, parent);
      VT_CHECK(idx == n, "tree/index", "AddNodeAndConnect gave ", idx, " for node ", n);
      model.push_back({expected, parent, {}});
      model[static_cast<size_t>(parent)].children.push_back(idx);
    }
    else
    {
      const std::vector<int64_t> bad = {-1, -2, n, n + 1, n + 1000, std::numeric_limits<int64_t>::min(),
                                        std::numeric_limits<int64_t>::max()};
      const int64_t parent = rng.Pick(bad);
      const Thrown t = vt::Catch([&] { tree.AddNodeAndConnect(v, parent); });
      VT_CHECK(t != Thrown::NONE, "tree/bad-parent", "parent ", parent, " accepted in a tree of ", n);
      vt::Count("bad_parents_rejected");
      CompareTree(tree, model, "after a refused addition");
    }
    if (hostile && rng.Chance(0.01))
    {
      tree.Clear();
      model.clear();
    }
  }
  return model;
}

void TreeModel(Rng& rng, uint64_t)
{
  Tree tree = rng.Chance(0.5) ? Tree() : Tree(rng.Int(0, 20));
  const auto model = RandomTree(rng, tree, vt::Large() ? rng.Int(400, 2500) : rng.Int(1, 60), true);
  CompareTree(tree, model, "after history");
  VT_CHECK(Tree::CheckNodeLinkage(tree.GetNodesImmutable()), "tree/linkage", "a grown tree has invalid linkage");
  uint64_t h = model.size();
  for (size_t i = 0; i < model.size(); i++)
  {
    std::vector<std::string> expected;
    for (int64_t at = static_cast<int64_t>(i); at >= 0; at = model[static_cast<size_t>(at)].parent)
    {
      expected.insert(expected.begin(), model[static_cast<size_t>(at)].value);
    }
    const auto path = rrt::ExtractSolutionPath<std::string>(tree, static_cast<int64_t>(i));
    VT_CHECK(path == expected, "tree/path", "path of node ", i, " has ", path.size(), " states, expected ", expected.size());
    const auto dpath = rrt::ExtractSolutionPath<std::string, Tree, std::deque<std::string>>(tree, static_cast<int64_t>(i));
    VT_CHECK(std::vector<std::string>(dpath.begin(), dpath.end()) == expected, "tree/path", "deque path differs");
    h = vt::Combine(h, static_cast<uint64_t>(model[i].parent + 1));
    vt::Count("paths_extracted");
  }
  // Copies are independent.
  Tree copy = tree;
  if (!copy.Empty())
  {
    copy.AddNodeAndConnect("more", 0);
    copy.GetNodeMutable(0).GetValueMutable() = "changed";
  }
  CompareTree(tree, model, "after changing a copy");
  vt::Nontrivial(h);
}

// One node on its own: the child list, the parent, the value and the encoding.
void NodeModel(Rng& rng, uint64_t)
{
  using Node = rrt::SimpleRRTPlannerState<std::string>;
  const auto wild = [&]() -> int64_t { return rng.Chance(0.3) ? rng.Int(0, 12) : rng.Chance(0.2) ? rng.Int(-3, 3) : static_cast<int64_t>(rng.Next()) >> rng.Int(0, 40); };
  ModelNode m;
  m.value = RandomText(rng);
  Node node(m.value);
  if (rng.Chance(0.4)) { m.parent = wild(); node = Node(m.value, m.parent); }
  else if (rng.Chance(0.4))
  {
    m.parent = wild();
    for (int64_t i = rng.Int(0, 30); i > 0; i--)
    {
      const int64_t c = wild();
      if (std::count(m.children.begin(), m.children.end(), c) == 0) { m.children.push_back(c); }
    }
    node = Node(m.value, m.parent, m.children);
  }
  const auto compare = [&](const Node& n, const char* when)
  {
    VT_CHECK(n.GetValueImmutable() == m.value, "node/value", when);
    VT_CHECK(n.GetParentIndex() == m.parent, "node/parent", when, ": parent ", n.GetParentIndex(), " expected ", m.parent);
    VT_CHECK(n.GetChildIndices() == m.children, "node/children", when, ": ", vt::VecStr(n.GetChildIndices()), " expected ", vt::VecStr(m.children));
  };
  compare(node, "after construction");
  for (int64_t op = rng.Int(1, 60); op > 0; op--)
  {
    // A copy, so that no argument refers into the node.
    const int64_t c = !m.children.empty() && rng.Chance(0.4) ? (rng.Chance(0.3) ? m.children.front() : rng.Chance(0.3) ? m.children.back() : rng.Pick(m.children)) : wild();
    switch (rng.Int(0, 9))
    {
      case 0: m.parent = c; node.SetParentIndex(c); break;
      case 1: m.value = RandomText(rng); node.GetValueMutable() = m.value; break;
      case 2: case 3:
        m.children.erase(std::remove(m.children.begin(), m.children.end(), c), m.children.end());
        node.RemoveChildIndex(c);
        break;
      case 4:
        if (rng.Chance(0.1)) { m.children.clear(); node.ClearChildIndicies(); }
        break;
      default:
        if (std::count(m.children.begin(), m.children.end(), c) == 0) { m.children.push_back(c); }
        else { vt::Count("children_added_again"); }
        node.AddChildIndex(c);
    }
    compare(node, "after an operation");
    vt::Count("node_operations");
  }
  const Node copy = node;
  compare(copy, "copied");
  std::vector<uint8_t> buffer(rng.Size(0, 5), 0x7e);
  const uint64_t at = buffer.size();
  const uint64_t written = Node::Serialize(node, buffer, serialization::SerializeString<char>);
  VT_CHECK(written == buffer.size() - at, "node/serialized-size", "returned ", written, " wrote ", buffer.size() - at);
  buffer.resize(buffer.size() + rng.Size(0, 5), 0x11);
  const auto back = Node::Deserialize(buffer, at, serialization::DeserializeString<char>);
  VT_CHECK(back.BytesRead() == written, "node/bytes-read", "read ", back.BytesRead(), " of ", written);
  compare(back.Value(), "after a round trip");
  // Propagated states.
  const int64_t rel = wild();
  rrt::PropagatedState<std::string> ps = rng.Chance(0.5) ? rrt::PropagatedState<std::string>(m.value, rel) : rrt::PropagatedState<std::string>(std::string(m.value), rel);
  VT_CHECK(ps.State() == m.value && ps.RelativeParentIndex() == rel, "node/propagated", "relative parent ", ps.RelativeParentIndex(), " of ", rel);
  const int64_t rel2 = wild();
  ps.SetRelativeParentIndex(rel2);
  ps.MutableState() += "!";
  const rrt::PropagatedState<std::string> ps2 = ps;
  VT_CHECK(ps2.State() == m.value + "!" && ps2.RelativeParentIndex() == rel2, "node/propagated", "relative parent ", ps2.RelativeParentIndex(), " of ", rel2);
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(m.parent), m.children.size()));
}

void TreeLinkage(Rng& rng, uint64_t)
{
  Tree tree;
  const auto model = RandomTree(rng, tree, rng.Int(1, 25), false);
  NodeVec nodes = tree.GetNodesImmutable();
  const int64_t edits = rng.Int(0, 3);
  const int64_t n = static_cast<int64_t>(nodes.size());
  for (int64_t e = 0; e < edits; e++)
  {
    auto& node = nodes[rng.Size(0, nodes.size() - 1)];
    const int64_t other = rng.Chance(0.2) ? rng.Pick(std::vector<int64_t>{-1, -2, 0, n, n + 1, n - 1}) : rng.Int(0, n - 1);
    switch (rng.Int(0, 4))
    {
      case 0: node.SetParentIndex(other); break;
      case 1: node.AddChildIndex(other); break;
      case 2: node.RemoveChildIndex(other); break;
      case 3: node.ClearChildIndicies(); break;
      default:
        if (!node.GetChildIndices().empty())
        {
          const auto had = node.GetChildIndices();
          const int64_t gone = rng.Pick(had);
          node.RemoveChildIndex(gone);
          VT_CHECK(node.GetChildIndices().size() == had.size() - 1, "tree/remove-child", "RemoveChildIndex removed ",
                   had.size() - node.GetChildIndices().size());
          if (rng.Chance(0.5))
          {
            node.AddChildIndex(gone);
            node.AddChildIndex(gone);
            VT_CHECK(node.GetChildIndices().size() == had.size(), "tree/add-child", "a child is listed twice");
          }
        }
    }
  }
  if (rng.Chance(0.2) && nodes.size() > 1) { nodes.pop_back(); }
  const bool expected = LinkageOracle(nodes);
  VT_CHECK(Tree::CheckNodeLinkage(nodes) == expected, "tree/linkage-check", "CheckNodeLinkage said ", !expected,
           " for ", nodes.size(), " nodes");
  Tree target;
  std::vector<ModelNode> target_model = RandomTree(rng, target, rng.Int(0, 5), false);
  VT_CHECK(target.SetNodes(nodes) == expected, "tree/set-nodes", "SetNodes returned ", !expected);
  if (!expected) { CompareTree(target, target_model, "after a refused SetNodes"); }
  else { VT_CHECK(target.Size() == static_cast<int64_t>(nodes.size()), "tree/set-nodes", "nodes not set"); }
  const Thrown t = vt::Catch([&] { const Tree built(nodes); });
  VT_CHECK(t == (expected ? Thrown::NONE : Thrown::INVALID_ARGUMENT), "tree/construct",
           "construction from ", expected ? "valid" : "broken", " linkage: ", static_cast<int>(t));
  vt::Count(expected ? "linkages_accepted" : "linkages_rejected");
  vt::Nontrivial(vt::Combine(nodes.size(), rng.Next()));
}

void TreeSerialize(Rng& rng, uint64_t)
{
  Tree tree;
  const auto model = RandomTree(rng, tree, vt::Large() ? rng.Int(200, 800) : rng.Int(0, 20), false);
  std::vector<uint8_t> buffer(rng.Size(0, 9), 0xab);
  const uint64_t at = buffer.size();
  const serialization::Serializer<std::string> s = serialization::SerializeString<char>;
  const serialization::Deserializer<std::string> d = serialization::DeserializeString<char>;
  const uint64_t written = Tree::Serialize(tree, buffer, s);
  VT_CHECK(written == buffer.size() - at, "tree/serialized-size", "returned ", written, " wrote ", buffer.size() - at);
  for (uint64_t i = 0; i < at; i++) { VT_CHECK(buffer[i] == 0xab, "tree/earlier-bytes", "earlier contents changed"); }
  {
    std::vector<uint8_t> longer = buffer;
    longer.resize(longer.size() + rng.Size(0, 5), 0x5a);
    const auto back = Tree::Deserialize(longer, at, d);
    VT_CHECK(back.BytesRead() == written, "tree/bytes-read", "read ", back.BytesRead(), " of ", written);
    CompareTree(back.Value(), model, "after a round trip");
    vt::Count("round_trips");
  }
  for (int k = 0; k < 4; k++)
  {
    std::vector<uint8_t> hurt = buffer;
    bool truncated = false;
    if (rng.Chance(0.4) && written > 0)
    {
      hurt.resize(at + rng.Size(0, static_cast<size_t>(written) - 1));
      truncated = true;
    }
    else
    {
      for (int64_t e = rng.Int(1, 3); e > 0; e--)
      {
        const size_t pos = rng.Size(static_cast<size_t>(at), hurt.size() - 1);
        hurt[pos] = rng.Chance(0.5) ? static_cast<uint8_t>(rng.Next()) : static_cast<uint8_t>(hurt[pos] + rng.Int(-1, 1));
      }
    }
    std::vector<uint8_t> exact(hurt.begin(), hurt.end());
    exact.shrink_to_fit();
    vt::LargestAlloc() = 0;
    const Thrown t = vt::Catch([&]
    {
      const auto back = Tree::Deserialize(exact, at, d);
      VT_CHECK(!truncated, "tree/truncated", "a truncated tree was accepted");
      VT_CHECK(back.BytesRead() <= exact.size() - at, "tree/over-read", "claims ", back.BytesRead());
      VT_CHECK(LinkageOracle(back.Value().GetNodesImmutable()), "tree/damaged-linkage", "broken linkage was admitted");
    });
    VT_CHECK(vt::LargestAlloc() <= 65536 + 64 * exact.size(), "tree/allocation", "asked for ", vt::LargestAlloc().load());
    vt::Count(t == Thrown::NONE ? "damaged_accepted_valid" : "damaged_rejected");
  }
  vt::Nontrivial(vt::HashStr(std::string(buffer.begin(), buffer.end())));
}

// ---------------------------------------------------------------- planning model
// States are unique numbers, so every node can be traced to the propagation that made it.
struct Node
{
  int64_t value;
  int64_t parent;
};
struct Sample
{
  int64_t tag;
};

// A user-defined tree type with the interface the planners need.
class UserTree
{
public:
  struct UserNode
  {
    int64_t v;
    int64_t p;
    const int64_t& GetValueImmutable() const { return v; }
    int64_t GetParentIndex() const { return p; }
  };
  int64_t Size() const { return static_cast<int64_t>(nodes_.size()); }
  bool Empty() const { return nodes_.empty(); }
  const UserNode& GetNodeImmutable(int64_t i) const { return nodes_.at(static_cast<size_t>(i)); }
  int64_t AddNode(int64_t v)
  {
    nodes_.push_back({v, -1});
    return Size() - 1;
  }
  int64_t AddNodeAndConnect(int64_t v, int64_t p)
  {
    nodes_.push_back({v, p});
    return Size() - 1;
  }

private:
  std::vector<UserNode> nodes_;
};

template<typename TreeType>
void FillTree(Rng& rng, TreeType& tree, std::vector<Node>& model, int64_t& next_value, int64_t size)
{
  for (int64_t i = 0; i < size; i++)
  {
    const int64_t v = next_value++;
    if (i == 0 || rng.Chance(0.3))
    {
      tree.AddNode(v);
      model.push_back({v, -1});
    }
    else
    {
      const int64_t p = rng.Int(0, i - 1);
      tree.AddNodeAndConnect(v, p);
      model.push_back({v, p});
    }
  }
}

std::vector<int64_t> Chain(const std::vector<Node>& model, int64_t at)
{
  std::vector<int64_t> c;
  for (; at >= 0; at = model.at(static_cast<size_t>(at)).parent) { c.push_back(model[static_cast<size_t>(at)].value); }
  std::reverse(c.begin(), c.end());
  return c;
}

template<typename TreeType>
void SameTree(const TreeType& tree, const std::vector<Node>& model, const char* which)
{
  VT_CHECK(tree.Size() == static_cast<int64_t>(model.size()), "plan/tree-size", which, ": ", tree.Size(), " expected ", model.size());
  for (size_t i = 0; i < model.size(); i++)
  {
    const auto& n = tree.GetNodeImmutable(static_cast<int64_t>(i));
    VT_CHECK(n.GetValueImmutable() == model[i].value && n.GetParentIndex() == model[i].parent, "plan/tree-node", which,
             " node ", i, " is (", n.GetValueImmutable(), ", parent ", n.GetParentIndex(), "), expected (",
             model[i].value, ", ", model[i].parent, ")");
  }
}

// A planned propagation: values and relative parents.
struct Planned
{
  std::vector<std::pair<int64_t, int64_t>> states;
};

Planned PlanPropagation(Rng& rng, int64_t& next_value)
{
  Planned p;
  if (rng.Chance(0.2)) { return p; }
  const int64_t n = rng.Chance(0.5) ? 1 : rng.Int(1, 6);
  const int shape = static_cast<int>(rng.Int(0, 2));
  for (int64_t i = 0; i < n; i++)
  {
    const int64_t rel = (shape == 0) ? i - 1 : (shape == 1) ? -1 : rng.Int(-1, i - 1);
    p.states.emplace_back(next_value++, rel);
  }
  return p;
}

bool IsGoal(int64_t value, uint64_t salt, int64_t odds)
{
  return vt::Mix(static_cast<uint64_t>(value) ^ salt) % static_cast<uint64_t>(odds) == 0;
}

template<typename TreeType, typename Container>
void RunRrt(Rng& rng)
{
  TreeType tree;
  std::vector<Node> model;
  int64_t next_value = 100;
  FillTree(rng, tree, model, next_value, rng.Chance(0.6) ? 1 : rng.Int(1, 6));
  const uint64_t salt = rng.Next();
  const int64_t odds = rng.Pick(std::vector<int64_t>{2, 5, 15, 1000000});
  const bool single = rng.Chance(0.4);
  const bool with_added = rng.Chance(0.7);
  const bool with_goal_cb = rng.Chance(0.7);
  const int64_t max_iterations = vt::Large() ? rng.Int(150, 700) : rng.Int(0, 40);
  const int64_t max_size = vt::Large() ? rng.Int(300, 3000) : rng.Chance(0.3) ? rng.Int(1, 30) : 1000;
  const int64_t throw_at = rng.Chance(0.1) ? rng.Int(0, 60) : -1;

  int64_t iterations = 0, calls = 0, samples = 0, added_calls = 0, successes = 0, failures = 0;
  int64_t outstanding = -1;
  std::vector<int64_t> goals_expected, goals_called;
  std::vector<std::pair<int64_t, int64_t>> pending;
  int64_t pending_nearest = -1;
  for (size_t i = 0; i < model.size(); i++)
  {
    if (IsGoal(model[i].value, salt, odds)) { goals_expected.push_back(static_cast<int64_t>(i)); }
  }
  struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
  const auto tick = [&] { if (calls++ == throw_at) { throw Boom(); } };

  // The model tree grows when the planner is told about the propagation.
  const rrt::SamplingFunction<Sample> sampling = [&]
  {
    tick();
    samples++;
    VT_EXPECT(outstanding == -1, "plan/order", "sampled again before the previous sample was used");
    outstanding = 1000 + samples;
    return Sample{outstanding};
  };
  const rrt::RRTNearestNeighborFunction<int64_t, TreeType, Sample> nearest = [&](const TreeType& t, const Sample& s)
  {
    tick();
    VT_EXPECT(&t == &tree && s.tag == outstanding, "plan/order", "nearest neighbour asked for sample ", s.tag);
    pending_nearest = rng.Int(0, t.Size() - 1);
    return pending_nearest;
  };
  const rrt::RRTForwardPropagationFunction<int64_t, Sample> propagate = [&](const int64_t& from, const Sample& s)
  {
    tick();
    VT_EXPECT(s.tag == outstanding && from == model.at(static_cast<size_t>(pending_nearest)).value, "plan/propagate-from",
              "propagated from state ", from, ", nearest neighbour is ", pending_nearest);
    outstanding = -1;
    const Planned p = PlanPropagation(rng, next_value);
    pending = p.states;
    rrt::ForwardPropagation<int64_t> f;
    std::vector<int64_t> index;
    for (const auto& st : p.states)
    {
      f.emplace_back(st.first, st.second);
      const int64_t parent = st.second >= 0 ? index.at(static_cast<size_t>(st.second)) : pending_nearest;
      index.push_back(static_cast<int64_t>(model.size()));
      model.push_back({st.first, parent});
      if (IsGoal(st.first, salt, odds)) { goals_expected.push_back(index.back()); }
    }
    (p.states.empty() ? failures : successes)++;
    vt::Count("states_propagated", p.states.size());
    return f;
  };
  rrt::RRTStateAddedCallbackFunction<int64_t, TreeType> added;
  int64_t expect_added = static_cast<int64_t>(model.size());
  if (with_added)
  {
    added = [&](TreeType& t, int64_t i)
    {
      tick();
      added_calls++;
      VT_EXPECT(&t == &tree && i == t.Size() - 1 && i == expect_added, "plan/state-added", "callback for node ", i,
                ", expected ", expect_added);
      VT_EXPECT(t.GetNodeImmutable(i).GetValueImmutable() == model.at(static_cast<size_t>(i)).value, "plan/state-added",
                "callback before the state was added");
      expect_added++;
    };
  }
  const rrt::RRTCheckGoalReachedFunction<int64_t> goal = [&](const int64_t& v)
  {
    tick();
    return IsGoal(v, salt, odds);
  };
  rrt::RRTGoalReachedCallbackFunction<int64_t, TreeType> goal_cb;
  if (with_goal_cb)
  {
    goal_cb = [&](TreeType& t, int64_t i)
    {
      VT_EXPECT(&t == &tree, "plan/goal-callback", "wrong tree");
      goals_called.push_back(i);
    };
  }
  bool stopped = false;
  const rrt::RRTTerminationCheckFunction stop = [&](int64_t size)
  {
    tick();
    VT_EXPECT(!stopped, "plan/termination", "asked again after planning was terminated");
    VT_EXPECT(size == static_cast<int64_t>(model.size()), "plan/termination-size", "told size ", size, " instead of ", model.size());
    if (single) { VT_EXPECT(goals_expected.empty(), "plan/single-continues", "continued after the first solution"); }
    stopped = iterations >= max_iterations || size >= max_size;
    iterations++;
    return stopped;
  };

  std::vector<Container> paths;
  rrt::PlanningStatistics stats;
  bool boomed = false;
  try
  {
    if (single)
    {
      const auto r = rrt::RRTPlanSinglePath<int64_t, TreeType, Sample, Container>(tree, sampling, nearest, propagate, added, goal, goal_cb, stop);
      if (!r.Path().empty()) { paths.push_back(r.Path()); }
      stats = r.Statistics();
    }
    else
    {
      const auto r = rrt::RRTPlanMultiPath<int64_t, TreeType, Sample, Container>(tree, sampling, nearest, propagate, added, goal, goal_cb, stop);
      for (const auto& p : r.Paths()) { paths.push_back(p); }
      stats = r.Statistics();
    }
  }
  catch (const Boom&) { boomed = true; }
  if (boomed)
  {
    // Whatever was added before the exception is a prefix of the expected tree.
    VT_CHECK(tree.Size() <= static_cast<int64_t>(model.size()), "plan/exception-tree", "extra nodes after an exception");
    model.resize(static_cast<size_t>(tree.Size()));
    SameTree(tree, model, "tree after an exception");
    vt::Count("plans_interrupted");
    return;
  }
  SameTree(tree, model, "tree");
  if (with_goal_cb)
  {
    VT_CHECK(goals_called == goals_expected, "plan/goal-events", "goal callbacks ", vt::VecStr(goals_called), " expected ",
             vt::VecStr(goals_expected));
  }
  if (with_added)
  {
    VT_CHECK(expect_added == static_cast<int64_t>(model.size()), "plan/state-added", "callback missing for some states");
  }
  const size_t expected_paths = single ? std::min<size_t>(1, goals_expected.size()) : goals_expected.size();
  VT_CHECK(paths.size() == expected_paths, "plan/path-count", paths.size(), " paths, expected ", expected_paths);
  for (size_t i = 0; i < paths.size(); i++)
  {
    const auto expected = Chain(model, goals_expected[i]);
    VT_CHECK(std::vector<int64_t>(paths[i].begin(), paths[i].end()) == expected, "plan/path", "path ", i, " is ",
             vt::VecStr(paths[i]), " expected ", vt::VecStr(expected));
    vt::Count("paths_checked");
  }
  VT_CHECK(stats.at("total_samples") == static_cast<double>(samples) &&
               stats.at("successful_samples") == static_cast<double>(successes) &&
               stats.at("failed_samples") == static_cast<double>(failures) && samples == successes + failures &&
               stats.at("total_states") == static_cast<double>(model.size()) &&
               stats.at("solutions") == static_cast<double>(goals_expected.size()) && stats.at("planning_time") >= 0.0,
           "plan/statistics", "samples ", stats.at("total_samples"), "/", samples, " successful ", stats.at("successful_samples"),
           "/", successes, " states ", stats.at("total_states"), "/", model.size(), " solutions ", stats.at("solutions"), "/",
           goals_expected.size());
  vt::Count(single ? "single_plans" : "multi_plans");
  if (paths.empty()) { vt::Count("plans_without_solution"); }
  vt::Nontrivial(vt::Combine(vt::Combine(salt, model.size()), paths.size()));
}

void RrtPlans(Rng& rng, uint64_t)
{
  switch (rng.Int(0, 3))
  {
    case 0: RunRrt<UserTree, std::vector<int64_t>>(rng); break;
    case 1: RunRrt<rrt::SimpleRRTPlannerTree<int64_t>, std::deque<int64_t>>(rng); break;
    default: RunRrt<rrt::SimpleRRTPlannerTree<int64_t>, std::vector<int64_t>>(rng); break;
  }
}

void RrtRejects(Rng& rng, uint64_t)
{
  rrt::SimpleRRTPlannerTree<int64_t> tree;
  int called = 0;
  const rrt::SamplingFunction<int64_t> s = [&] { called++; return int64_t{0}; };
  int64_t nn = 0;
  const rrt::RRTNearestNeighborFunction<int64_t> nnf = [&](const rrt::SimpleRRTPlannerTree<int64_t>&, const int64_t&) { return nn; };
  int64_t rel = -1;
  const rrt::RRTForwardPropagationFunction<int64_t> p = [&](const int64_t& v, const int64_t&)
  {
    rrt::ForwardPropagation<int64_t> f;
    f.emplace_back(v + 1, -1);
    f.emplace_back(v + 2, rel);
    return f;
  };
  const rrt::RRTCheckGoalReachedFunction<int64_t> g = [&](const int64_t&) { return false; };
  int iterations = 0;
  const rrt::RRTTerminationCheckFunction stop = [&](int64_t) { return iterations++ > 3; };
  VT_CHECK(vt::Catch([&] { rrt::RRTPlanMultiPath<int64_t, rrt::SimpleRRTPlannerTree<int64_t>, int64_t>(tree, s, nnf, p, {}, g, {}, stop); }) == Thrown::INVALID_ARGUMENT && called == 0,
           "plan/empty-tree", "planning started with an empty tree");
  VT_CHECK(vt::Catch([&] { rrt::RRTPlanSinglePath<int64_t, rrt::SimpleRRTPlannerTree<int64_t>, int64_t>(tree, s, nnf, p, {}, g, {}, stop); }) == Thrown::INVALID_ARGUMENT,
           "plan/empty-tree", "single path planning started with an empty tree");
  tree.AddNode(5);
  // A nearest neighbour or relative parent that does not exist must not corrupt the tree.
  if (rng.Chance(0.5)) { nn = rng.Pick(std::vector<int64_t>{-1, 1, 2, 1000}); }
  else { rel = rng.Pick(std::vector<int64_t>{1, 2, 1000}); }
  VT_CHECK(vt::Catch([&] { rrt::RRTPlanMultiPath<int64_t, rrt::SimpleRRTPlannerTree<int64_t>, int64_t>(tree, s, nnf, p, {}, g, {}, stop); }) != Thrown::NONE, "plan/bad-index",
           "nearest neighbour ", nn, " or relative parent ", rel, " was accepted");
  VT_CHECK(rrt::SimpleRRTPlannerTree<int64_t>::CheckNodeLinkage(tree.GetNodesImmutable()), "plan/bad-index-linkage",
           "the tree is broken after a refused index");
  vt::Count("bad_indices_refused");
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(nn + 5), static_cast<uint64_t>(rel + 5)));
}

// ---------------------------------------------------------------- BiRRT
bool Connected(int64_t a, int64_t b, uint64_t salt, int64_t odds)
{
  return vt::Mix(vt::Combine(static_cast<uint64_t>(std::min(a, b)), static_cast<uint64_t>(std::max(a, b))) ^ salt) %
             static_cast<uint64_t>(odds) == 0;
}

template<typename TreeType, typename Container>
void RunBirrt(Rng& rng)
{
  using AT = rrt::BiRRTActiveTreeType;
  using ST = rrt::BiRRTSampleType;
  TreeType trees[2];
  std::vector<Node> model[2];
  int64_t next_value = 100;
  for (int k = 0; k < 2; k++) { FillTree(rng, trees[k], model[k], next_value, rng.Chance(0.6) ? 1 : rng.Int(1, 5)); }
  const uint64_t salt = rng.Next();
  const int64_t odds = rng.Pick(std::vector<int64_t>{2, 6, 20, 1000000});
  const bool single = rng.Chance(0.4);
  const bool with_cbs = rng.Chance(0.7);
  const int64_t max_iterations = vt::Large() ? rng.Int(150, 700) : rng.Int(0, 40);
  struct Bridge { int64_t s, g; };
  std::vector<Bridge> expected;
  std::vector<Bridge> called;
  for (size_t i = 0; i < model[0].size(); i++)
  {
    for (size_t j = 0; j < model[1].size(); j++)
    {
      if (Connected(model[0][i].value, model[1][j].value, salt, odds))
      {
        expected.push_back({static_cast<int64_t>(i), static_cast<int64_t>(j)});
      }
    }
  }
  AT active = AT::START_TREE;
  int64_t iterations = 0, active_count[2] = {0, 0}, swaps = 0, samples = 0, ok = 0, failed = 0;
  int64_t target_value = -1, target_index = -1, nearest_index = -1;
  ST sample_type = ST::STATE_SAMPLE;
  bool planning = false;
  const auto act = [&](AT a, const char* where)
  {
    VT_EXPECT(a == active, "birrt/active-tree", where, " was told the wrong active tree");
    return a == AT::START_TREE ? 0 : 1;
  };
  const rrt::BiRRTSelectSampleTypeFunction<int64_t, TreeType> select_type = [&](const TreeType& s, const TreeType& g, AT a)
  {
    VT_EXPECT(&s == &trees[0] && &g == &trees[1], "birrt/trees", "trees swapped in sample type selection");
    active_count[act(a, "sample type selection")]++;
    sample_type = rng.Chance(0.6) ? ST::TREE_SAMPLE : ST::STATE_SAMPLE;
    return sample_type;
  };
  const rrt::SamplingFunction<int64_t> state_sampling = [&]
  {
    VT_EXPECT(sample_type == ST::STATE_SAMPLE, "birrt/sampling", "state sampled instead of the tree");
    samples++;
    target_value = next_value++;
    target_index = -1;
    return target_value;
  };
  const rrt::BiRRTTreeSamplingFunction<int64_t, TreeType> tree_sampling = [&](const TreeType& t, AT a)
  {
    const int k = act(a, "tree sampling");
    VT_EXPECT(sample_type == ST::TREE_SAMPLE && &t == &trees[1 - k], "birrt/sampling", "sampled the wrong tree");
    samples++;
    target_index = rng.Int(0, t.Size() - 1);
    target_value = t.GetNodeImmutable(target_index).GetValueImmutable();
    return target_index;
  };
  const rrt::BiRRTNearestNeighborFunction<int64_t, TreeType> nearest = [&](const TreeType& t, const int64_t& v, AT a)
  {
    VT_EXPECT(&t == &trees[act(a, "nearest neighbour")] && v == target_value, "birrt/nearest", "asked about state ", v,
              " instead of ", target_value);
    nearest_index = rng.Int(0, t.Size() - 1);
    return nearest_index;
  };
  const rrt::BiRRTPropagationFunction<int64_t> propagate = [&](const int64_t& from, const int64_t& to, AT a)
  {
    const int k = act(a, "propagation");
    VT_EXPECT(from == model[k].at(static_cast<size_t>(nearest_index)).value && to == target_value, "birrt/propagate",
              "propagated from ", from, " to ", to);
    const Planned p = PlanPropagation(rng, next_value);
    rrt::ForwardPropagation<int64_t> f;
    std::vector<int64_t> index;
    for (const auto& st : p.states)
    {
      f.emplace_back(st.first, st.second);
      const int64_t parent = st.second >= 0 ? index.at(static_cast<size_t>(st.second)) : nearest_index;
      index.push_back(static_cast<int64_t>(model[k].size()));
      model[k].push_back({st.first, parent});
      if (target_index >= 0 && Connected(st.first, target_value, salt, odds))
      {
        expected.push_back(k == 0 ? Bridge{index.back(), target_index} : Bridge{target_index, index.back()});
      }
    }
    (p.states.empty() ? failed : ok)++;
    vt::Count("states_propagated", p.states.size());
    return f;
  };
  rrt::BiRRTStateAddedCallbackFunction<int64_t, TreeType> added;
  int64_t added_at[2] = {static_cast<int64_t>(model[0].size()), static_cast<int64_t>(model[1].size())};
  rrt::BiRRTGoalBridgeCallbackFunction<int64_t, TreeType> bridge_cb;
  if (with_cbs)
  {
    added = [&](TreeType& t, int64_t i, AT a)
    {
      const int k = act(a, "state added callback");
      VT_EXPECT(&t == &trees[k] && i == added_at[k] && i == t.Size() - 1, "birrt/state-added", "callback for node ", i);
      added_at[k]++;
    };
    bridge_cb = [&](TreeType& s, int64_t si, TreeType& g, int64_t gi, AT a)
    {
      act(a, "bridge callback");
      VT_EXPECT(&s == &trees[0] && &g == &trees[1], "birrt/trees", "trees swapped in the bridge callback");
      called.push_back({si, gi});
    };
  }
  const rrt::BiRRTStatesConnectedFunction<int64_t> connected = [&](const int64_t& x, const int64_t& y, AT a)
  {
    const int k = act(a, "connection check");
    if (planning)
    {
      VT_EXPECT(y == target_value, "birrt/connected", "connection checked against state ", y, " instead of the target ", target_value);
      VT_EXPECT(sample_type == ST::TREE_SAMPLE, "birrt/connected", "connection checked for a sampled state");
      VT_EXPECT(x == trees[k].GetNodeImmutable(trees[k].Size() - 1).GetValueImmutable(), "birrt/connected",
                "connection checked for state ", x, ", not the newest");
    }
    return Connected(x, y, salt, odds);
  };
  const rrt::BiRRTSelectActiveTreeFunction<int64_t, TreeType> select_active = [&](const TreeType& s, const TreeType& g, AT a)
  {
    VT_EXPECT(&s == &trees[0] && &g == &trees[1], "birrt/trees", "trees swapped in active tree selection");
    act(a, "active tree selection");
    if (rng.Chance(0.4))
    {
      active = (active == AT::START_TREE) ? AT::GOAL_TREE : AT::START_TREE;
      swaps++;
    }
    return active;
  };
  const rrt::BiRRTTerminationCheckFunction stop = [&](int64_t a, int64_t b)
  {
    planning = true;
    VT_EXPECT(a == static_cast<int64_t>(model[0].size()) && b == static_cast<int64_t>(model[1].size()), "birrt/termination-size",
              "told ", a, ",", b);
    if (single) { VT_EXPECT(expected.empty(), "birrt/single-continues", "continued after the first solution"); }
    return iterations++ >= max_iterations;
  };
  std::vector<Container> paths;
  rrt::PlanningStatistics stats;
  if (single)
  {
    const auto r = rrt::BiRRTPlanSinglePath<int64_t, TreeType, Container>(trees[0], trees[1], select_type, state_sampling, tree_sampling,
                                                                       nearest, propagate, added, connected, bridge_cb, select_active, stop);
    if (!r.Path().empty()) { paths.push_back(r.Path()); }
    stats = r.Statistics();
  }
  else
  {
    const auto r = rrt::BiRRTPlanMultiPath<int64_t, TreeType, Container>(trees[0], trees[1], select_type, state_sampling, tree_sampling,
                                                                      nearest, propagate, added, connected, bridge_cb, select_active, stop);
    for (const auto& p : r.Paths()) { paths.push_back(p); }
    stats = r.Statistics();
  }
  SameTree(trees[0], model[0], "start tree");
  SameTree(trees[1], model[1], "goal tree");
  if (with_cbs)
  {
    VT_CHECK(called.size() == expected.size(), "birrt/bridge-events", called.size(), " bridges reported, expected ", expected.size());
    for (size_t i = 0; i < called.size(); i++)
    {
      VT_CHECK(called[i].s == expected[i].s && called[i].g == expected[i].g, "birrt/bridge-events", "bridge ", i, " is (",
               called[i].s, ",", called[i].g, ")");
    }
    VT_CHECK(added_at[0] == static_cast<int64_t>(model[0].size()) && added_at[1] == static_cast<int64_t>(model[1].size()),
             "birrt/state-added", "callback missing for some states");
  }
  const size_t expected_paths = single ? std::min<size_t>(1, expected.size()) : expected.size();
  VT_CHECK(paths.size() == expected_paths, "birrt/path-count", paths.size(), " paths, expected ", expected_paths);
  for (size_t i = 0; i < paths.size(); i++)
  {
    auto want = Chain(model[0], expected[i].s);
    auto back = Chain(model[1], expected[i].g);
    want.insert(want.end(), back.rbegin(), back.rend());
    VT_CHECK(std::vector<int64_t>(paths[i].begin(), paths[i].end()) == want, "birrt/path", "path ", i, " is ", vt::VecStr(paths[i]),
             " expected ", vt::VecStr(want));
    vt::Count("paths_checked");
  }
  VT_CHECK(stats.at("total_samples") == static_cast<double>(samples) && stats.at("successful_samples") == static_cast<double>(ok) &&
               stats.at("failed_samples") == static_cast<double>(failed) && samples == ok + failed &&
               stats.at("start_tree_active_iterations") == static_cast<double>(active_count[0]) &&
               stats.at("goal_tree_active_iterations") == static_cast<double>(active_count[1]) &&
               stats.at("active_tree_swaps") == static_cast<double>(swaps) &&
               stats.at("total_states") == static_cast<double>(model[0].size() + model[1].size()) &&
               stats.at("solutions") == static_cast<double>(expected.size()) && stats.at("planning_time") >= 0.0,
           "birrt/statistics", "samples ", stats.at("total_samples"), "/", samples, " swaps ", stats.at("active_tree_swaps"), "/", swaps,
           " solutions ", stats.at("solutions"), "/", expected.size());
  vt::Count(single ? "single_plans" : "multi_plans");
  if (swaps > 0) { vt::Count("plans_with_swaps"); }
  vt::Nontrivial(vt::Combine(vt::Combine(salt, model[0].size()), model[1].size()));
}

void BirrtPlans(Rng& rng, uint64_t)
{
  switch (rng.Int(0, 3))
  {
    case 0: RunBirrt<UserTree, std::vector<int64_t>>(rng); break;
    case 1: RunBirrt<rrt::SimpleRRTPlannerTree<int64_t>, std::deque<int64_t>>(rng); break;
    default: RunBirrt<rrt::SimpleRRTPlannerTree<int64_t>, std::vector<int64_t>>(rng); break;
  }
}

void BirrtRejects(Rng& rng, uint64_t)
{
  using AT = rrt::BiRRTActiveTreeType;
  using T = rrt::SimpleRRTPlannerTree<int64_t>;
  T a, b;
  if (rng.Chance(0.5)) { a.AddNode(1); } else if (rng.Chance(0.5)) { b.AddNode(1); }
  const Thrown t = vt::Catch([&]
  {
    rrt::BiRRTPlanMultiPath<int64_t, T, std::vector<int64_t>>(
        a, b, [](const T&, const T&, AT) { return rrt::BiRRTSampleType::STATE_SAMPLE; }, [] { return int64_t{1}; },
        [](const T&, AT) { return int64_t{0}; }, [](const T&, const int64_t&, AT) { return int64_t{0}; },
        [](const int64_t&, const int64_t&, AT) { return rrt::ForwardPropagation<int64_t>(); }, {},
        [](const int64_t&, const int64_t&, AT) { return true; }, {}, [](const T&, const T&, AT x) { return x; },
        [](int64_t, int64_t) { return true; });
  });
  VT_CHECK(t == Thrown::INVALID_ARGUMENT, "birrt/empty-tree", "planning started with an empty tree");
  vt::Count("empty_trees_refused");
  vt::Nontrivial(rng.Next());
}

// ---------------------------------------------------------------- P34
using Q = Eigen::Vector2d;

struct Space
{
  uint64_t salt;
  double blocked;  // share of invalid edges
  int norm;        // 0 Euclidean, 1 Manhattan, 2 Chebyshev
  double Dist(const Q& a, const Q& b) const
  {
    const Q d = (b - a).cwiseAbs();
    return norm == 0 ? d.norm() : norm == 1 ? d.sum() : d.maxCoeff();
  }
  static uint64_t Bits(double v)
  {
    uint64_t b;
    v += 0.0;
    std::memcpy(&b, &v, sizeof(b));
    return b;
  }
  bool Valid(const Q& a, const Q& b) const
  {
    const uint64_t h = vt::Combine(vt::Combine(vt::Combine(Bits(a.x()), Bits(a.y())), vt::Combine(Bits(b.x()), Bits(b.y()))), salt);
    return static_cast<double>(h >> 11) * 0x1.0p-53 >= blocked;
  }
};

Q RandomQ(Rng& rng)
{
  switch (rng.Int(0, 2))
  {
    case 0: return Q(static_cast<double>(rng.Int(-8, 8)), static_cast<double>(rng.Int(-8, 8)));
    case 1: return Q(rng.Real(-10, 10), 0.0);
    default: return Q(rng.Real(-10, 10), rng.Real(-10, 10));
  }
}

void Propagation(Rng& rng, uint64_t)
{
  const Space sp{rng.Next(), rng.Pick(std::vector<double>{0.0, 0.0, 0.1, 0.5}), static_cast<int>(rng.Int(0, 2))};
  std::vector<std::pair<Q, Q>> checked;
  const std::function<double(const Q&, const Q&)> dist = [&](const Q& a, const Q& b) { return sp.Dist(a, b); };
  const std::function<Q(const Q&, const Q&, double)> interp = [&](const Q& a, const Q& b, double r)
  {
    VT_EXPECT(r >= 0.0 && r <= 1.0, "propagate/ratio", "interpolation ratio ", r);
    return Q(a + (b - a) * r);
  };
  const std::function<bool(const Q&, const Q&)> valid = [&](const Q& a, const Q& b)
  {
    checked.emplace_back(a, b);
    return sp.Valid(a, b);
  };
  const double step = rng.Pick(std::vector<double>{0.25, 0.5, 1.0, 3.0, 100.0, rng.Real(0.05, 4.0), 0.1, std::numeric_limits<double>::infinity()});
  for (const double bad : {0.0, -1.0, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
  {
    VT_CHECK(vt::Catch([&] { rrt::MakeKinematicRRTExtendPropagationFunction<Q>(dist, interp, valid, bad); }) == Thrown::INVALID_ARGUMENT &&
                 vt::Catch([&] { rrt::MakeKinematicRRTConnectPropagationFunction<Q>(dist, interp, valid, bad); }) == Thrown::INVALID_ARGUMENT &&
                 vt::Catch([&] { rrt::MakeKinematicBiRRTExtendPropagationFunction<Q>(dist, interp, valid, bad); }) == Thrown::INVALID_ARGUMENT &&
                 vt::Catch([&] { rrt::MakeKinematicBiRRTConnectPropagationFunction<Q>(dist, interp, valid, bad); }) == Thrown::INVALID_ARGUMENT,
             "propagate/step-size", "step size ", bad, " accepted");
  }
  const auto active = rng.Chance(0.5) ? rrt::BiRRTActiveTreeType::START_TREE : rrt::BiRRTActiveTreeType::GOAL_TREE;
  for (int k = 0; k < 6; k++)
  {
    const Q from = RandomQ(rng);
    Q to = rng.Chance(0.1) ? from : RandomQ(rng);
    if (std::isfinite(step) && step < 10.0 && rng.Chance(0.25))
    {
      // Just short of, or just beyond, a whole number of steps.
      const double off = (rng.Chance(0.5) ? 1.0 : -1.0) * std::pow(10.0, static_cast<double>(-rng.Int(1, 7)));
      const double length = step * (static_cast<double>(rng.Chance(0.5) ? 1 : rng.Int(2, 8)) + off);
      const double angle = rng.Chance(0.5) ? 0.0 : rng.Real(-3.14, 3.14);
      const Q way(std::cos(angle), std::sin(angle));
      to = from + way * (length / sp.Dist(Q(0.0, 0.0), way));
      vt::Count("marginal_lengths");
    }
    const bool connect = rng.Chance(0.6);
    const bool bi = rng.Chance(0.5);
    checked.clear();
    rrt::ForwardPropagation<Q> f;
    if (connect)
    {
      f = bi ? rrt::MakeKinematicBiRRTConnectPropagationFunction<Q>(dist, interp, valid, step)(from, to, active)
             : rrt::MakeKinematicRRTConnectPropagationFunction<Q>(dist, interp, valid, step)(from, to);
    }
    else
    {
      f = bi ? rrt::MakeKinematicBiRRTExtendPropagationFunction<Q>(dist, interp, valid, step)(from, to, active)
             : rrt::MakeKinematicRRTExtendPropagationFunction<Q>(dist, interp, valid, step)(from, to);
    }
    const double total = sp.Dist(from, to);
    const double tol = 1e-9;
    if (!connect) { VT_CHECK(f.size() <= 1, "propagate/extend-count", f.size(), " states from one extension"); }
    Q at = from;
    double travelled = 0.0;
    for (size_t i = 0; i < f.size(); i++)
    {
      const Q s = f[i].State();
      VT_CHECK(f[i].RelativeParentIndex() == static_cast<int64_t>(i) - 1, "propagate/parents", "state ", i, " has relative parent ",
               f[i].RelativeParentIndex());
      VT_CHECK(std::any_of(checked.begin(), checked.end(), [&](const auto& e) { return e.first == at && e.second == s; }) && sp.Valid(at, s),
               "propagate/unchecked-edge", "edge ", i, " was not checked or is invalid");
      const double d = sp.Dist(at, s);
      VT_CHECK(d <= step * (1.0 + tol), "propagate/step", "edge ", i, " is ", d, " long, step size ", step);
      travelled += d;
      // On the segment towards the sample.
      const double left = sp.Dist(s, to);
      VT_CHECK(std::abs(travelled + left - total) <= tol * (1.0 + total), "propagate/straight", "state ", i,
               " is off the segment: travelled ", travelled, " left ", left, " total ", total);
      // Every step but the last is a full one.
      if (i + 1 < f.size()) { VT_CHECK(d >= step * (1.0 - tol), "propagate/short-step", "edge ", i, " is ", d, " of ", step); }
      at = s;
    }
    const double left = sp.Dist(at, to);
    if (f.empty() && !connect) { VT_CHECK(checked.size() == 1 && !sp.Valid(checked[0].first, checked[0].second), "propagate/extend-gave-up", "nothing returned although the edge is valid"); }
    if (!f.empty() && !connect)
    {
      VT_CHECK(total <= step ? (at - to).norm() == 0.0 : std::abs(sp.Dist(from, at) - step) <= tol * step, "propagate/extend-length",
               "extended ", sp.Dist(from, at), " of ", total, " with step ", step);
    }
    if (connect && left > tol * (1.0 + total))
    {
      VT_CHECK(!checked.empty() && checked.back().first == at && !sp.Valid(checked.back().first, checked.back().second),
               "propagate/connect-gave-up", "stopped ", left, " before the sample without an invalid edge");
      vt::Count("connects_blocked");
    }
    else if (connect) { vt::Count("connects_reached"); }
    vt::Count("edges_propagated", f.size());
    vt::Nontrivial(vt::Combine(Space::Bits(from.x() + 31 * to.x()), Space::Bits(from.y() - 17 * to.y() + step)));
  }
}

void Nearest(Rng& rng, uint64_t)
{
  const Space sp{rng.Next(), 0.0, static_cast<int>(rng.Int(0, 2))};
  rrt::SimpleRRTPlannerTree<Q> tree;
  const int64_t n = vt::Large() ? rng.Int(300, 2000) : rng.Int(0, 40);
  for (int64_t i = 0; i < n; i++)
  {
    if (i == 0) { tree.AddNode(RandomQ(rng)); } else { tree.AddNodeAndConnect(RandomQ(rng), rng.Int(0, i - 1)); }
  }
  // Direction matters: from the tree to the sample.
  const std::function<double(const Q&, const Q&)> dist = [&](const Q& a, const Q& b)
  { return sp.Dist(a, b) + 0.5 * std::max(0.0, b.x() - a.x()); };
  const parallelism::DegreeOfParallelism par(static_cast<int32_t>(rng.Int(1, 6)));
  const Q q = RandomQ(rng);
  int64_t got = -1;
  const int kind = static_cast<int>(rng.Int(0, 2));
  const Thrown t = vt::Catch([&]
  {
    got = kind == 0 ? rrt::MakeKinematicLinearRRTNearestNeighborsFunction<Q>(dist, par)(tree, q)
        : kind == 1 ? rrt::MakeLinearRRTNearestNeighborsFunction<Q>(dist, par)(tree, q)
                    : rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<Q>(dist, par)(tree, q, rrt::BiRRTActiveTreeType::GOAL_TREE);
  });
  if (n == 0)
  {
    VT_CHECK(t == Thrown::RUNTIME_ERROR, "nearest/empty", "a neighbour of an empty tree: ", got);
    return;
  }
  VT_CHECK(t == Thrown::NONE && got >= 0 && got < n, "nearest/index", "index ", got, " of ", n);
  double best = std::numeric_limits<double>::infinity();
  for (int64_t i = 0; i < n; i++) { best = std::min(best, dist(tree.GetNodeImmutable(i).GetValueImmutable(), q)); }
  VT_CHECK(dist(tree.GetNodeImmutable(got).GetValueImmutable(), q) == best, "nearest/not-nearest", "node ", got);
  vt::Count("nearest_checked");
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(n), Space::Bits(best)));
}

void Choices(Rng& rng, uint64_t)
{
  using AT = rrt::BiRRTActiveTreeType;
  using T = rrt::SimpleRRTPlannerTree<int64_t>;
  T a, b;
  for (int64_t i = rng.Chance(0.2) ? rng.Int(10, 500) : rng.Int(1, 9); i > 0; i--) { a.AddNode(i); }
  std::vector<double> script;
  size_t used = 0;
  const utility::UniformUnitRealFunction unit = [&] { return script.at(used++); };
  const double bias = rng.Pick(std::vector<double>{0.0, 1.0, 0.5, rng.Unit()});
  const auto sel = rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<int64_t>(unit, bias);
  const auto swap = rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<int64_t>(unit, bias);
  const auto tree_sample = rrt::MakeUniformRandomBiRRTTreeSamplingFunction<int64_t>(unit);
  const std::deque<int64_t> goals = rng.Chance(0.3) ? std::deque<int64_t>{7} : [&]
  {
    std::deque<int64_t> many;
    for (int64_t i = rng.Chance(0.3) ? rng.Int(5, 300) : rng.Int(2, 5); i > 0; i--) { many.push_back(6 + i); }
    return many;
  }();
  int state_calls = 0;
  const rrt::SamplingFunction<int64_t> state = [&] { state_calls++; return int64_t{-1}; };
  const auto goal_sampling = rrt::MakeStateAndGoalsSamplingFunction<int64_t, std::deque<int64_t>>(state, goals, bias, unit);
  for (int k = 0; k < 30; k++)
  {
    const double u = rng.Chance(0.1) ? std::nextafter(1.0, 0.0) : rng.Unit();
    const double u2 = rng.Chance(0.1) ? 0.0 : rng.Chance(0.1) ? std::nextafter(1.0, 0.0) : rng.Unit();
    if (u == bias) { continue; }
    const AT at = rng.Chance(0.5) ? AT::START_TREE : AT::GOAL_TREE;
    const AT other = at == AT::START_TREE ? AT::GOAL_TREE : AT::START_TREE;
    script = {u}; used = 0;
    VT_CHECK(sel(a, b, at) == (u < bias ? rrt::BiRRTSampleType::TREE_SAMPLE : rrt::BiRRTSampleType::STATE_SAMPLE), "choice/sample-type",
             "u ", u, " bias ", bias);
    script = {u}; used = 0;
    VT_CHECK(swap(a, b, at) == (u < bias ? other : at), "choice/active-tree", "u ", u, " p ", bias);
    script = {u}; used = 0;
    VT_CHECK(tree_sample(a, at) == static_cast<int64_t>(std::floor(u * static_cast<double>(a.Size()))), "choice/tree-sample", "u ", u, " size ", a.Size());
    script = {u, u2}; used = 0;
    const int before = state_calls;
    const int64_t s = goal_sampling();
    if (u > bias) { VT_CHECK(s == -1 && state_calls == before + 1, "choice/goal-bias", "u ", u, " bias ", bias, " gave ", s); }
    else
    {
      const size_t want = goals.size() == 1 ? 0 : static_cast<size_t>(std::floor(u2 * static_cast<double>(goals.size())));
      VT_CHECK(s == goals[want] && state_calls == before, "choice/goal", "u2 ", u2, " gave goal ", s);
    }
    vt::Count("choices_checked");
  }
  for (const double bad : {-1e-9, -1.0, 1.0 + 1e-9, 2.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
  {
    VT_CHECK(vt::Catch([&] { rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<int64_t>(unit, bad); }) == Thrown::INVALID_ARGUMENT &&
                 vt::Catch([&] { rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<int64_t>(unit, bad); }) == Thrown::INVALID_ARGUMENT &&
                 vt::Catch([&] { rrt::MakeStateAndGoalsSamplingFunction<int64_t, std::deque<int64_t>>(state, goals, bad, unit); }) == Thrown::INVALID_ARGUMENT,
             "choice/probability", "probability ", bad, " accepted");
  }
  VT_CHECK(vt::Catch([&] { rrt::MakeStateAndGoalsSamplingFunction<int64_t, std::deque<int64_t>>(state, {}, 0.5, unit); }) == Thrown::INVALID_ARGUMENT,
           "choice/no-goals", "sampling from no goals accepted");
  script = {0.5}; used = 0;
  VT_CHECK(vt::Catch([&] { tree_sample(b, AT::START_TREE); }) == Thrown::INVALID_ARGUMENT, "choice/empty-tree", "sampled an empty tree");
  vt::Nontrivial(rng.Next());
}

void Timeouts(Rng& rng, uint64_t)
{
  for (const double bad : {0.0, -1.0, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
  {
    VT_CHECK(vt::Catch([&] { rrt::TimeoutCheckHelper h(bad); }) == Thrown::RUNTIME_ERROR &&
                 vt::Catch([&] { rrt::MakeRRTTimeoutTerminationFunction(bad); }) == Thrown::RUNTIME_ERROR &&
                 vt::Catch([&] { rrt::MakeBiRRTTimeoutTerminationFunction(bad); }) == Thrown::RUNTIME_ERROR,
             "timeout/invalid", "timeout ", bad, " accepted");
  }
  using Clock = std::chrono::steady_clock;
  for (const double forever : {std::numeric_limits<double>::infinity(), std::numeric_limits<double>::max(), 1e300, 1e12, 1e10, 9.3e9, 1e5})
  {
    rrt::TimeoutCheckHelper never(forever);
    const auto one = rrt::MakeRRTTimeoutTerminationFunction(forever);
    const auto two = rrt::MakeBiRRTTimeoutTerminationFunction(forever);
    never.Start();
    for (int64_t i = 0; i < 3; i++)
    {
      VT_CHECK(!never.Check() && !never.CheckOrStart() && !one(i) && !two(i, i), "timeout/early", "timed out at once with a timeout of ", forever);
    }
    vt::Count("endless_timeouts");
  }
  const double timeout = rng.Real(0.002, 0.02);
  rrt::TimeoutCheckHelper h(timeout);
  VT_CHECK(vt::Catch([&] { h.Check(); }) == Thrown::RUNTIME_ERROR, "timeout/not-started", "Check() before Start()");
  const auto one = rrt::MakeRRTTimeoutTerminationFunction(timeout);
  const auto two = rrt::MakeBiRRTTimeoutTerminationFunction(timeout);
  std::this_thread::sleep_for(std::chrono::duration<double>(rng.Chance(0.5) ? timeout * 1.2 : 0.0));
  const int kind = static_cast<int>(rng.Int(0, 3));
  const auto check = [&](int64_t n) { return kind == 0 ? h.CheckOrStart() : kind == 1 ? one(n) : kind == 2 ? two(n, n) : h.Check(); };
  const auto before_start = Clock::now();
  if (kind == 3) { h.Start(); }
  else { VT_CHECK(!check(0), "timeout/first-call", "timed out on the call that starts the clock"); }
  const auto after_start = Clock::now();
  bool out = false;
  for (int64_t i = 1; !out; i++)
  {
    const auto before = Clock::now();
    out = check(i);
    const auto after = Clock::now();
    const double most = std::chrono::duration<double>(after - before_start).count();
    const double least = std::chrono::duration<double>(before - after_start).count();
    if (out) { VT_CHECK(most > timeout, "timeout/early", "timed out after at most ", most, " of ", timeout); }
    else { VT_CHECK(least <= timeout, "timeout/late", "not timed out after at least ", least, " of ", timeout); }
    vt::Count("timeout_checks");
    if (!out) { std::this_thread::sleep_for(std::chrono::microseconds(200)); }
  }
  VT_CHECK(check(99), "timeout/forgot", "the timeout expired and then did not");
  if (kind == 0 || kind == 3)
  {
    h.Reset();
    VT_CHECK(vt::Catch([&] { h.Check(); }) == Thrown::RUNTIME_ERROR && !h.CheckOrStart(), "timeout/reset", "Reset() did not stop the clock");
  }
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(kind), rng.Next()));
}

// Full planning runs in a plane with disc obstacles, every returned edge re-checked.
void EndToEnd(Rng& rng, uint64_t)
{
  struct Disc { Q c; double r; };
  std::vector<Disc> discs;
  for (int64_t i = rng.Int(0, 6); i > 0; i--) { discs.push_back({Q(rng.Real(2, 8), rng.Real(0, 10)), rng.Real(0.3, 1.5)}); }
  const std::function<bool(const Q&, const Q&)> valid = [&](const Q& a, const Q& b)
  {
    for (const auto& d : discs)
    {
      const Q ab = b - a;
      const double l2 = ab.squaredNorm();
      const double t = l2 > 0.0 ? std::max(0.0, std::min(1.0, (d.c - a).dot(ab) / l2)) : 0.0;
      if ((a + t * ab - d.c).norm() <= d.r) { return false; }
    }
    return true;
  };
  const std::function<double(const Q&, const Q&)> dist = [](const Q& a, const Q& b) { return (b - a).norm(); };
  const std::function<Q(const Q&, const Q&, double)> interp = [](const Q& a, const Q& b, double r) { return Q(a + (b - a) * r); };
  const utility::UniformUnitRealFunction unit = [&] { return rng.Unit(); };
  const rrt::SamplingFunction<Q> sample = [&] { return Q(rng.Real(0, 10), rng.Real(0, 10)); };
  const Q start(0.5, 5.0), goal(9.5, 5.0);
  const double step = rng.Real(0.5, 3.0);
  const parallelism::DegreeOfParallelism par(static_cast<int32_t>(rng.Int(1, 4)));
  using T = rrt::SimpleRRTPlannerTree<Q>;
  std::vector<Q> path;
  const int kind = static_cast<int>(rng.Int(0, 2));
  int64_t iterations = 0;
  if (kind == 0)
  {
    T tree;
    tree.AddNode(start);
    const auto r = rrt::RRTPlanSinglePath<Q, T, Q, std::vector<Q>>(
        tree, rrt::MakeStateAndGoalsSamplingFunction<Q>(sample, std::vector<Q>{goal}, 0.1, unit),
        rrt::MakeKinematicLinearRRTNearestNeighborsFunction<Q>(dist, par),
        rng.Chance(0.5) ? rrt::MakeKinematicRRTExtendPropagationFunction<Q>(dist, interp, valid, step)
                        : rrt::MakeKinematicRRTConnectPropagationFunction<Q>(dist, interp, valid, step),
        {}, [&](const Q& q) { return (q - goal).norm() < 1e-9; }, {}, [&](int64_t) { return iterations++ > 300; });
    path = r.Path();
    VT_CHECK(T::CheckNodeLinkage(tree.GetNodesImmutable()), "e2e/linkage", "RRT tree linkage is broken");
  }
  else
  {
    T a, b;
    a.AddNode(start);
    b.AddNode(goal);
    const auto prop = kind == 1 ? rrt::MakeKinematicBiRRTExtendPropagationFunction<Q>(dist, interp, valid, step)
                                : rrt::MakeKinematicBiRRTConnectPropagationFunction<Q>(dist, interp, valid, step);
    const auto r = rrt::BiRRTPlanSinglePath<Q, T, std::vector<Q>>(
        a, b, rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<Q>(unit, 0.3), sample,
        rrt::MakeUniformRandomBiRRTTreeSamplingFunction<Q>(unit),
        rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<Q>(dist, par), prop, {},
        [&](const Q& x, const Q& y, rrt::BiRRTActiveTreeType) { return (x - y).norm() < 1e-9; }, {},
        rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<Q>(unit, 0.25), [&](int64_t, int64_t) { return iterations++ > 300; });
    path = r.Path();
    VT_CHECK(T::CheckNodeLinkage(a.GetNodesImmutable()) && T::CheckNodeLinkage(b.GetNodesImmutable()), "e2e/linkage", "BiRRT tree linkage is broken");
  }
  if (path.empty()) { vt::Count("e2e_unsolved"); return; }
  VT_CHECK(path.front() == start && (path.back() - goal).norm() < 1e-9, "e2e/ends", "path does not join start and goal");
  for (size_t i = 1; i < path.size(); i++)
  {
    // A bridge joins two copies of (nearly) the same state.
    const double d = dist(path[i - 1], path[i]);
    VT_CHECK(d <= step * (1.0 + 1e-9), "e2e/step", "edge ", i, " is ", d, " long");
    VT_CHECK(d < 1e-6 || (valid(path[i - 1], path[i]) || valid(path[i], path[i - 1])), "e2e/invalid-edge", "edge ", i, " hits an obstacle");
  }
  vt::Count("e2e_solved");
  vt::Nontrivial(vt::Combine(path.size(), rng.Next()));
}
}  // namespace

int main(int argc, char** argv)
{
  using vt::Scenario;
#if VT_PROP == 31
  return vt::Main(argc, argv, {Scenario{"tree_model", 1500, 60000, TreeModel}, Scenario{"tree_linkage", 6000, 250000, TreeLinkage},
                               Scenario{"tree_serialize", 1500, 60000, TreeSerialize}, Scenario{"node", 2500, 100000, NodeModel},
                               Scenario{"tree_model_large", 8, 200, vt::LargeCase<TreeModel>},
                               Scenario{"tree_serialize_large", 12, 300, vt::LargeCase<TreeSerialize>}});
#elif VT_PROP == 32
  return vt::Main(argc, argv, {Scenario{"rrt_plans", 6000, 300000, RrtPlans}, Scenario{"rrt_plans_large", 60, 2000, vt::LargeCase<RrtPlans>},
                               Scenario{"rrt_rejects", 300, 2000, RrtRejects}});
#elif VT_PROP == 33
  return vt::Main(argc, argv, {Scenario{"birrt_plans", 6000, 300000, BirrtPlans}, Scenario{"birrt_plans_large", 60, 2000, vt::LargeCase<BirrtPlans>},
                               Scenario{"birrt_rejects", 100, 1000, BirrtRejects}});
#else
  return vt::Main(argc, argv, {Scenario{"propagation", 1500, 80000, Propagation}, Scenario{"nearest", 1000, 30000, Nearest},
                               Scenario{"nearest_large", 30, 600, vt::LargeCase<Nearest>},
                               Scenario{"choices", 500, 10000, Choices}, Scenario{"timeouts", 40, 800, Timeouts},
                               Scenario{"end_to_end", 100, 3000, EndToEnd}});
#endif
}
