H = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"

P("P49", "Constant operations may be used from many threads at once",
  "Threads may at the same time run operations that leave their arguments constant (queries, copies, clones, serialization, searches, clustering, smoothing) on one shared grid, graph, tree, roadmap, data set or buffer, and any operations on objects of their own, without data races and with the results of running alone; a thread queries its own clone of a time-parametrized trajectory, whose queries are documented as not thread safe. Threads may write different cells of one dense voxel grid at the same time.",
  ["schedules", "inputs"],
  "all sets of concurrent operations and schedules",
  "tests use objects from one thread",
  [H + "voxel_grid.hpp", H + "dynamic_spatial_hashed_voxel_grid.hpp", H + "simple_graph.hpp", H + "simple_graph_search.hpp", H + "simple_prm_planner.hpp", H + "serialization.hpp", S + "zlib_helpers.cpp"],
  [("GetIndexImmutable, Clone, PerformLazyAstarSearch, QueryPath", H + "voxel_grid.hpp")])

P("P50", "Graph text and edge equality reflect the full contents",
  "Printing or streaming an edge, node, graph or overlay shows each edge's ends, weight and scratchpad, each node's value with all its in and out edges in order, and every node in index order, an overlay marking which nodes it holds itself and which it takes from its base. Printing changes nothing and repeats exactly. Two edges are equal exactly when ends, weight and scratchpad all match.",
  ["inputs"],
  "all graphs, overlays, value types, edges",
  "no test prints a graph or compares edges",
  [H + "simple_graph.hpp", H + "print.hpp"],
  [("GraphEdge::operator==, GraphEdge::Print, GraphNode::Print, NonOwningGraphOverlay::Print", H + "simple_graph.hpp")])
