H = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"

P("P01", "Parallel-for loops run every index of the range exactly once",
  "Every parallel-for entry point (static or dynamic, index or range style, any backend, any degree of parallelism) hands each index of [range_start, range_end) to the work function exactly once and never an index outside it, including empty and very short ranges, ranges that do not start at zero, and loops nested inside other loops. All work has finished, and its writes are visible, when the call returns. Range-style loops receive non-empty, disjoint ranges that together make up the whole range.",
  ["schedules", "inputs", "configurations"],
  "all loop kinds, backends, ranges, thread counts, OpenMP limits and interleavings",
  "tests run a few ranges at one thread count and one machine schedule",
  [H + "parallelism.hpp"],
  [("static and dynamic loop implementations", H + "parallelism.hpp"), ("CalcStaticThreadRanges", H + "parallelism.hpp")],
  observe=["work-function calls"])

P("P02", "Parallel-for bounds concurrency and never shares a thread number",
  "During a parallel-for loop every thread number handed to the work function lies in [0, number of threads of the DegreeOfParallelism), and no two work-function calls that run at the same time carry the same thread number, so per-thread storage indexed by it needs no locking. A DegreeOfParallelism that is not parallel runs everything on one thread number, and invalid thread counts are rejected on construction.",
  ["schedules", "configurations"],
  "all interleavings, loop kinds, backends, thread counts and OpenMP thread limits",
  "tests cannot observe overlapping calls or enumerate schedules",
  [H + "parallelism.hpp"],
  [("DegreeOfParallelism", H + "parallelism.hpp"), ("thread-number assignment in each backend", H + "parallelism.hpp")],
  observe=["work-function calls and their thread numbers"])

P("P03", "Exceptions in parallel work reach the caller after all work has stopped",
  "If the work function of a parallel-for loop throws, the loop call throws one of the thrown exceptions to its caller, with its type and content intact, and never terminates the process or swallows it. No work-function call is still running when the exception leaves the loop, and the loop can be used again afterwards.",
  ["fault_sequences", "schedules"],
  "exceptions of any type at any set of indices, in every loop kind and backend, under any interleaving",
  "tests throw from few places on one schedule",
  [H + "parallelism.hpp"],
  [("per-backend exception capture and rethrow", H + "parallelism.hpp")],
  observe=["exception seen by the caller", "calls live at that moment"])

P("P04", "Static work division is a balanced, ordered, gap-free partition",
  "Dividing [range_start, range_end) statically over N threads yields at most N non-empty ranges that are in ascending order, contiguous, and cover the range exactly, each carrying a distinct thread number in [0, N), with sizes that differ by at most one. Inverted ranges and invalid thread counts are rejected.",
  ["inputs"],
  "every range and thread count",
  "tests check a handful of ranges and thread counts",
  [H + "parallelism.hpp"],
  [("CalcStaticThreadRanges, ThreadWorkRange", H + "parallelism.hpp")])

P("P05", "Maybe types behave like a value-or-nothing through every history",
  "An owning maybe holds either nothing or exactly one live value, and construction, copy, move, assignment, swap and reset keep that value equal to what a plain optional would hold, constructing and destroying contained objects in strict balance, even if a contained type's copy or move throws or an object is assigned to itself. Reading the value of an empty maybe throws instead of reading memory. Referencing maybes refer to the very object they were given.",
  ["histories", "fault_sequences"],
  "all operation histories over any contained type, with exceptions at any copy or move",
  "tests follow a few fixed operation sequences without failing contents",
  [H + "maybe.hpp"],
  [("OwningMaybe storage and type tag", H + "maybe.hpp"), ("ReferencingMaybe", H + "maybe.hpp")],
  observe=["live-object count", "value held"])

P("P06", "Serialization round-trips every supported value bit for bit",
  "For every serializer (memory-copyable values, network byte order values, strings, vectors, maps, pairs, Eigen matrices, vectors, quaternions and transforms, and nested combinations), serializing appends exactly the number of bytes it returns and leaves earlier buffer contents alone, and deserializing at that offset returns an equal value (bitwise for numbers, including infinities and NaN) and reports exactly that number of bytes read. Values concatenated in one buffer are recovered in order. Network variants store integers and floats in big-endian order.",
  ["inputs", "programs"],
  "all values of all supported kinds, at any offset, in any sequence",
  "existing tests cover few kinds and values",
  [H + "serialization.hpp", S + "serialization.cpp"],
  [("Serialize*/Deserialize* families", H + "serialization.hpp"), ("Eigen serializers", S + "serialization.cpp")])

P("P07", "Deserializing truncated or damaged buffers is memory-safe",
  "Deserializing any kind of value from a truncated, corrupted or hostile buffer, at any offset, either throws an exception or returns a value decoded entirely from bytes inside the buffer; it never reads outside the buffer, never executes undefined behaviour and never allocates memory out of proportion to the buffer size. A strictly truncated encoding is always rejected, and an in-place network-order write that does not fit at the given position is refused with the buffer unchanged.",
  ["inputs", "fault_sequences"],
  "all byte buffers and offsets, for every value kind",
  "tests only decode buffers the library itself just wrote",
  [H + "serialization.hpp", S + "serialization.cpp"],
  [("bounds checks in each Deserialize function", H + "serialization.hpp")])

P("P08", "Base64 encoding is standard, lossless and safe on any input text",
  "Encoding any byte sequence yields its standard padded base64 text (RFC 4648 alphabet), and decoding that text returns the original bytes exactly. Decoding arbitrary text, including bytes outside the alphabet and any length, never reads or writes out of bounds and never runs undefined behaviour.",
  ["inputs"],
  "all byte sequences and all strings",
  "existing tests do not cover this module's inputs",
  [H + "base64_helpers.hpp", S + "base64_helpers.cpp"],
  [("Encode and Decode", S + "base64_helpers.cpp")])

P("P09", "Compression round-trips and never returns wrong data silently",
  "Compressing any bytes yields a valid zlib stream that decompresses to exactly the original, in memory and through files. Decompressing a truncated or corrupted stream throws rather than returning different data, and writing a compressed file either produces the complete file or throws, including when the device is full or a size limit is hit.",
  ["inputs", "fault_sequences"],
  "all inputs and sizes, damaged streams, failing file writes and reads",
  "tests never damage a stream or fail a write",
  [H + "zlib_helpers.hpp", S + "zlib_helpers.cpp"],
  [("CompressBytes, DecompressBytes", S + "zlib_helpers.cpp"), ("file variants", S + "zlib_helpers.cpp")])

P("P10", "Random generators reproduce their published sequences deterministically",
  "SplitMix64, XorShift128+ and XorShift1024* generators produce exactly their published algorithm's sequence for a given seed; reseeding restores the state of a fresh generator with that seed, discard(n) equals n draws, and copies continue identically and independently. Outputs are 64-bit values within the reported min and max.",
  ["histories", "inputs"],
  "all seeds and all histories of draw, discard, reseed and copy",
  "no existing test compares the sequences or histories",
  [H + "simple_prngs.hpp"],
  [("generator operator(), seed, discard", H + "simple_prngs.hpp")])

P("P11", "Random rotations are valid and uniformly distributed",
  "Every quaternion from the uniform rotation generator is finite and of unit norm, whatever the underlying random values, and the rotations are uniformly distributed over all orientations. Every drawn Euler-angle triple lies in its valid range, and generation is determined by the supplied random source alone.",
  ["inputs", "histories"],
  "all random streams, including extreme unit values; distribution over long streams",
  "a sampled test cannot see extreme draws or distributional bias",
  [H + "random_rotation_generator.hpp"],
  [("UniformRandomQuaternion, UniformRandomEulerAngles", H + "random_rotation_generator.hpp")])

P("P12", "Uniform index and range helpers stay in bounds for every draw",
  "Drawing an index for a container of n elements always yields a value in [0, n), and drawing in [start, end] always yields a value in that closed range with every value reachable and probabilities proportional, for every integer width, range size and unit random value including those closest to 0 and 1. Invalid sizes and ranges are rejected.",
  ["inputs"],
  "all container sizes and ranges, all unit random values",
  "tests draw typical values only",
  [H + "utility.hpp"],
  [("GetUniformRandomIndex, GetUniformRandomInRange", H + "utility.hpp")])

P("P13", "Graphs and overlays keep exactly the nodes and edges given to them",
  "Through any history of node and edge additions and edits, a graph, and an overlay on a graph, contain exactly the nodes, values, edges and weights a plain model would; additions with out-of-range or identical endpoints are refused and change nothing. The linkage check accepts exactly the graphs in which every edge is stored at its own endpoints, joins two different existing nodes and is known to both, and graphs violating this cannot be constructed. Modifying an overlay never changes its base graph, and an owning overlay keeps its base alive.",
  ["histories", "inputs"],
  "all operation histories and all (also malformed) edge lists",
  "tests build a few fixed graphs",
  [H + "simple_graph.hpp"],
  [("CheckGraphLinkage", H + "simple_graph.hpp"), ("Graph and overlay AddNode/AddEdge*", H + "simple_graph.hpp")],
  state=[("nodes with in/out edges", "directed edges recorded at both endpoints", H + "simple_graph.hpp")])

P("P14", "Pruning a graph keeps exactly the surviving nodes and edges",
  "A pruned copy contains exactly the unpruned nodes in their original order with unchanged values, and exactly the edges between surviving nodes, with their order, weights and scratch values unchanged and their indices renumbered consistently. Its linkage is valid, the original graph is untouched, and the result is the same at every degree of parallelism and for overlays as for plain graphs.",
  ["inputs", "schedules"],
  "all graphs, prune sets and thread counts",
  "tests prune one small graph",
  [H + "simple_graph.hpp"],
  [("PruneGraph", H + "simple_graph.hpp")])

P("P15", "Graph serialization round-trips and never admits a broken graph",
  "Serializing a graph, a node, an edge or a Dijkstra result and deserializing it yields an equal object and exactly the reported byte counts. Truncated buffers are rejected; damaged buffers are rejected or yield a graph whose linkage is valid, without out-of-bounds access or disproportionate allocation.",
  ["inputs", "fault_sequences"],
  "all graphs, truncation points and corruptions",
  "tests round-trip one graph and never damage it",
  [H + "simple_graph.hpp", H + "simple_graph_search.hpp"],
  [("SerializeSelf/DeserializeSelf with linkage check", H + "simple_graph.hpp")])

P("P16", "Dijkstra's distances are shortest and its previous-index map realises them",
  "For any graph or overlay with non-negative (possibly zero or infinite) edge weights, Dijkstra's search from an index reports for every node the exact length of the shortest path from that node to the start, infinity if there is none. Following previous indices from any reachable node leads to the start along existing edges whose weights sum to the reported distance; unreachable nodes have previous index -1, and an out-of-range start is rejected.",
  ["inputs"],
  "all weighted directed graphs and start nodes",
  "tests check one small graph",
  [H + "simple_graph_search.hpp"],
  [("PerformDijkstrasAlgorithm", H + "simple_graph_search.hpp")])

P("P17", "Graph A* returns valid, optimal paths, or none when there is none",
  "Every graph A* entry point (plain and lazy, index- and value-based, with or without queue-duplicate limiting) returns a path from one of the starts to a goal over existing valid edges, with reported cost equal to the start's cost plus its edge costs, whenever a path exists, and an empty path with infinite cost otherwise. With a heuristic that never overestimates (consistent or not) and no start that already satisfies the goal, that cost is the minimum over all starts and goals; when a start satisfies the goal the cheapest such start alone is returned. Out-of-range indices and empty start sets are rejected.",
  ["inputs"],
  "all graphs, validity functions, start and goal sets and heuristics",
  "tests compare a few searches on one graph",
  [H + "simple_graph_search.hpp", H + "simple_astar_search.hpp"],
  [("PerformLazyAstarSearch, PerformAstarSearch", H + "simple_graph_search.hpp")])

P("P18", "Generic A* returns valid, optimal paths, or none when there is none",
  "A* over an implicit state space, for any hashable state type, custom hash, equality and path container, in both forms (children with costs, or children plus separate validity and distance functions), returns a path from a start to a state satisfying the goal made only of generated valid transitions, and reports a cost matching it, whenever one exists, and an empty path with infinite cost otherwise. With a heuristic that never overestimates and no start satisfying the goal, the cost is minimal; when starts satisfy the goal the cheapest such start alone is returned.",
  ["inputs"],
  "all finite state spaces, cost functions, heuristics and state types",
  "no test covers this beyond task-planner examples",
  [H + "simple_astar_search.hpp"],
  [("PerformAstarSearch, ExtractAstarResult", H + "simple_astar_search.hpp")])

P("P19", "K-nearest-neighbour queries return exactly the K nearest items",
  "For any items, range, query, distance function and K, the query returns min(K, range size) distinct indices inside the range, each with its exact distance, and no item outside the result is nearer than one inside it. Serial and parallel search agree on the distances at every degree of parallelism, including when fewer threads are available than requested, and negative K or invalid ranges are rejected.",
  ["inputs", "schedules", "configurations"],
  "all item sets (ties and infinite distances included), ranges, K, thread counts and OpenMP limits",
  "tests use fixed random sets on an unrestricted machine",
  [H + "simple_knearest_neighbors.hpp"],
  [("serial and per-thread merge search", H + "simple_knearest_neighbors.hpp")])

P("P20", "Hausdorff distance and distance matrices equal their definitions",
  "The distance between two sets is the maximum over the first set of the minimum distance to the second set, and pairwise distance matrices hold the distance of every pair at its position, for any sizes. The distance-function and distance-matrix forms agree, serial and parallel results are identical at every degree of parallelism, and empty sets or wrongly sized matrices are rejected.",
  ["inputs", "schedules"],
  "all pairs of sets, distance functions and thread counts",
  "tests check small fixed sets",
  [H + "simple_hausdorff_distance.hpp", H + "math.hpp"],
  [("ComputeDistance", H + "simple_hausdorff_distance.hpp"), ("BuildPairwiseDistanceMatrix", H + "math.hpp")])

P("P21", "Dynamic time warping returns the cheapest alignment cost",
  "For any two non-empty sequences and any non-negative distance function the warping cost equals the minimum total cost over all monotone alignments that match both ends, including when costs tie. An evaluator reused for sequences of other lengths gives the same answers as a fresh one, and empty sequences are rejected.",
  ["inputs", "histories"],
  "all sequence pairs, distance functions and reuse histories",
  "no existing test evaluates it",
  [H + "simple_dtw.hpp"],
  [("EvaluateWarpingCost", H + "simple_dtw.hpp")])

P("P22", "Hierarchical clustering partitions the data within its distance bound",
  "For any symmetric distance matrix and bound, the clusters partition the data: every element appears in exactly one non-empty cluster. Under complete linkage no cluster contains two elements further apart than the bound; under single linkage clusters are exactly the groups connected by distances within the bound; in both no two final clusters could still be merged, and clusters arise by always merging the closest pair, with the last merge distance reported. The result does not depend on the degree of parallelism when distances are distinct.",
  ["inputs", "schedules"],
  "all distance matrices, bounds, strategies and thread counts",
  "tests check one small example",
  [H + "simple_hierarchical_clustering.hpp"],
  [("IndexClusterWithDistanceMatrix, GetClosestPair", H + "simple_hierarchical_clustering.hpp")])

P("P23", "K-means terminates with a converged, deterministic labelling",
  "For any non-empty data and any number of clusters between one and the number of elements, k-means terminates and labels every element with a cluster number in range such that no element is nearer to another non-empty cluster's centre than to its own. It never asks for the average of zero elements, duplicate elements included; the labelling depends only on data, weights and seed, not on the degree of parallelism, and other cluster counts are rejected.",
  ["inputs", "schedules"],
  "all data sets (duplicates included), weights, cluster counts, seeds and thread counts",
  "tests check one well-separated example",
  [H + "simple_kmeans_clustering.hpp"],
  [("ClusterWeighted, ComputeClusterCentersWeighted", H + "simple_kmeans_clustering.hpp")])
