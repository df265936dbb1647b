H = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"

P("P24", "Path smoothing and resampling keep paths connected, valid and no longer",
  "Shortcut smoothing never moves the first or last state, never lengthens the path under a metric distance, respects its iteration and failure limits, and, without resampling or with marginal-shortcut checking, returns only edges that are original edges or have passed the validity check, keeping remaining original states in order. Resampling keeps every original state in order (exact repeats collapse), inserts only states interpolated on the original segments, and leaves no gap larger than the requested distance; non-positive distances are rejected. The collision-free fraction of a path is exactly the share of its edges before the first invalid one.",
  ["inputs", "histories"],
  "all paths, edge-validity relations (including direction-dependent ones), random sources, containers and settings",
  "no test touches path processing, and violations need particular windows and validity patterns",
  [H + "path_processing.hpp"],
  [("AttemptShortcut, ShortcutSmoothPath", H + "path_processing.hpp"), ("ResamplePath", H + "path_processing.hpp")])

P("P25", "Atomic wrapper, scope guard and future polling keep their promises",
  "A copyable-moveable atomic behaves as an atomic under any interleaving: no concurrent update is lost, every fetched value is handed out once, copies taken meanwhile hold a value that existed, sequentially consistent stores publish prior writes, and copies and assignments across memory orders transfer the value and leave the source usable. A scope guard runs its function exactly once, on every way out of the scope including exceptions, in reverse order of construction, unless disabled, and refuses an empty function. Polling a future reports ready exactly when its result is set and never blocks or consumes it.",
  ["schedules", "histories"],
  "all interleavings of updates and copies; all nestings and exits",
  "tests run these single-threaded on one sequence",
  [H + "utility.hpp"],
  [("CopyableMoveableAtomic, OnScopeExit, IsFutureReady", H + "utility.hpp")])

P("P26", "Collection, clamping, bit and hashing helpers compute what they claim",
  "Subset and equality tests on collections are multiset comparisons for every container and order; building maps from keys and values, listing keys and values, and lookups with a default reproduce exactly the entries, with mismatched sizes rejected. Clamping and threshold spreading return the documented value for every scalar and reject inverted limits; setting one bit changes that bit only and reading returns it, at every position of every width. Combined hashes are deterministic and depend on every component and their order.",
  ["inputs"],
  "all collections, scalars, bit positions and values",
  "tests check a few literals per helper",
  [H + "utility.hpp"],
  [("IsSubset, CollectionsEqual, map helpers", H + "utility.hpp"), ("ClampValue, SpreadValue, SetBit, GetBit, hash_combine", H + "utility.hpp")])

P("P27", "Scoped OpenMP thread settings take effect and are always restored",
  "Inside the lifetime of a thread-count wrapper the OpenMP thread setting is the requested one (one for the disabling wrapper), and when the wrapper goes away, in any nesting and also by exception, the setting is exactly what it was before, whatever thread limits or dynamic adjustment are in force. Wrappers refuse non-positive counts and construction inside a parallel region without changing anything, and the query functions report the runtime's actual state, or serial values in builds without OpenMP.",
  ["configurations", "histories"],
  "all nestings, ambient settings, thread limits, dynamic adjustment and builds",
  "tests run in one environment without thread limits or exceptions",
  [H + "openmp_helpers.hpp"],
  [("ChangeOmpNumThreadsWrapper, DisableOmpWrapper", H + "openmp_helpers.hpp")],
  observe=["omp_get_max_threads before, inside and after"])

P("P28", "Roadmaps contain exactly the valid connections to nearest neighbours",
  "A built or grown roadmap contains only states that passed the validity check (without duplicates unless requested), exactly the edges between each state and its K nearest neighbours that pass the edge check in that direction, each weighted with the distance in that direction, at every degree of parallelism, for symmetric and direction-dependent distances and for graphs and overlays. Its linkage is valid, statistics add up, sampling gives up with an exception exactly when the allowed tries are exhausted, and bad arguments are rejected. Neighbour providers returning indices outside the allowed range are caught before the roadmap changes.",
  ["inputs", "schedules", "configurations"],
  "all state distributions, validity relations, distance functions, K and thread counts",
  "the planning test solves one scenario and never inspects the roadmap",
  [H + "simple_prm_planner.hpp"],
  [("BuildRoadMap, GrowRoadMap, AddNodeToRoadmap", H + "simple_prm_planner.hpp"), ("GraphKNNProvider", H + "simple_prm_planner.hpp")])

P("P29", "Roadmap queries return the best valid path, or none if there is none",
  "A roadmap query connects each start and goal to its K nearest roadmap states in the right direction and returns the cheapest path from any start to any goal over valid edges, with its exact cost, or an empty path with infinite cost when there is none. Plain queries trust stored edge weights; lazy queries trust none of them and re-check validity and distance. The non-adding forms leave the roadmap untouched and return what the adding forms return; missing starts or goals are rejected.",
  ["inputs", "configurations"],
  "all roadmaps, starts, goals, distance and validity relations and query options",
  "the planning test runs a few queries on one grid map and cannot judge optimality",
  [H + "simple_prm_planner.hpp", H + "simple_graph_search.hpp"],
  [("QueryPath, LazyQueryPath and AddNodes variants", H + "simple_prm_planner.hpp")])

P("P30", "Updating roadmap edges refreshes every copy of every edge",
  "After a roadmap edge update every stored copy of every edge (outgoing and incoming) carries the current distance of its direction if it passes the validity check and infinity otherwise, and nothing else about the roadmap changes. This holds at every degree of parallelism, race-free, for graphs and for overlays (whose base stays untouched), and roadmaps with invalid linkage are rejected unchanged.",
  ["inputs", "schedules"],
  "all roadmaps, validity relations, thread counts and interleavings",
  "races need particular schedules, and tests use one graph kind and do not look at both copies",
  [H + "simple_prm_planner.hpp"],
  [("UpdateRoadMapEdges", H + "simple_prm_planner.hpp")])
