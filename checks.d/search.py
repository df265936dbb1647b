check("P16", [unit("asan", "search.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=16"], shards=4)],
      "distinct (weighted graph, start)",
      "differential monitor against label-correcting relaxation plus walk of the predecessor map, ASan/UBSan",
      "Graphs up to 2500 nodes with zero, infinite and parallel edges; exact arithmetic; also through overlays.",
      {"distances_checked": 5000, "large_cases": 20})
check("P17", [unit("asan", "search.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=17"], shards=4)],
      "distinct (graph, starts, goals, heuristic kind)",
      "differential monitor: optimal cost by relaxation, path re-validated edge by edge, ASan/UBSan",
      "Zero, exact, scaled, inconsistent-admissible and inadmissible heuristics; both queue modes; all overloads.",
      {"optimal_checked": 1500, "long_paths": 300, "unsolvable": 200, "large_cases": 20})
check("P18", [unit("asan", "search.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=18"], shards=4)],
      "distinct (state space, query)",
      "differential monitor: optimal cost by relaxation, path re-validated edge by edge, ASan/UBSan",
      "Integer, string and custom-hash states, several containers, both overloads and queue modes.",
      {"optimal_checked": 1500, "long_paths": 300, "unsolvable": 200, "large_cases": 20})
