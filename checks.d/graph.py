check("P13", [unit("asan", "graph.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=13"], shards=4)],
      "distinct graphs reached by an operation history",
      "model-based monitor over operation histories on graphs and overlays, ASan/UBSan",
      "Random histories with invalid operations mixed in; linkage verdicts against an independent definition.",
      {"histories": 500, "overlay_operations": 5000, "linkage_invalid": 500, "bad_edges_refused": 500, "large_cases": 50})
check("P14", [unit("asan", "graph.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=14"], shards=5),
              unit("shim_tsan", "graph.cpp", "tsan-omp", libs=["serialization"], flags=["-DVT_PROP=14"], shards=2, scale=0.2)],
      "distinct (graph, prune-set size)",
      "model-based monitor of pruned copies at several thread counts, ASan/UBSan and TSan",
      "Graphs up to 3000 nodes; prune sets from empty to all.",
      {"prunes": 3000, "kept_edges_checked": 5000, "large_cases": 10})
check("P15", [unit("asan", "graph.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=15"], shards=4)],
      "distinct serialized graphs",
      "round-trip and fault-injection monitor with linkage re-check, ASan/UBSan, allocation watch",
      "Truncation at thinned offsets and random or hostile damage of every graph.",
      {"round_trips": 500, "single_nodes": 500, "single_edges": 300, "truncations": 5000, "damage_rejected": 500, "mismatched_encodings": 500, "large_cases": 10})
