def prm(prop, shim=0.2):
    d = ["-DVT_PROP=%d" % prop]
    return [unit("asan", "prm.cpp", "asan", libs=["serialization"], flags=d, shards=4),
            unit("shim_tsan", "prm.cpp", "tsan-omp", libs=["serialization"], flags=d, shards=3, scale=shim)]


check("P28", prm(28), "distinct (world, roadmap)",
      "model-based monitor of roadmap construction with pseudo-random validity, ASan/UBSan and TSan on a hostile OpenMP runtime",
      "Symmetric and asymmetric quasi-metrics, ties and duplicates, thread counts 1-8, graphs and overlays.",
      {"large_cases": 90, "edges_checked": 5000, "roadmaps_built": 300, "roadmaps_grown": 200, "nodes_added": 1000, "nearly_coincident_worlds": 50, "builds_sampling_failed": 20})
check("P29", prm(29), "distinct (world, query, cost)",
      "differential monitor: model roadmap plus relaxation for the optimum, ASan/UBSan and TSan",
      "Plain, lazy, overlay, working-copy and node-adding queries with several starts and goals.",
      {"large_cases": 75, "queries_optimal": 800, "queries_unsolvable": 100, "queries_through_roadmap": 300})
check("P30", prm(30), "distinct (world, edge counts)",
      "recomputation monitor of every stored edge copy, ASan/UBSan and TSan on a hostile OpenMP runtime",
      "Graphs and overlays, parallel edges, thread counts 1-8, broken linkage rejected.",
      {"large_cases": 75, "updated_finite": 5000, "updated_infinite": 2000, "updates_rejected": 50})
