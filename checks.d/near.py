def near(prop, shim=0.25, limited=0.5):
    d = ["-DVT_PROP=%d" % prop]
    return [unit("asan", "near.cpp", "asan", flags=d, shards=3),
            unit("omp_limited", "near.cpp", "fast", flags=d, shards=1, scale=limited,
                 env={"OMP_THREAD_LIMIT": "3", "OMP_NUM_THREADS": "3"}),
            unit("shim_tsan", "near.cpp", "tsan-omp", flags=d, shards=3, scale=shim)]


check("P19", near(19), "distinct (items, range, K)",
      "brute-force differential monitor under ASan/UBSan, thread limits, nesting and TSan",
      "Up to 20000 items, ties and infinite distances, thread counts 0-16, inside parallel regions.",
      {"knn_queries": 5000, "odd_distance_functions": 100, "knn_merges": 1500, "large_cases": 20})
check("P20", near(20), "distinct pairs of point sets",
      "brute-force differential monitor under ASan/UBSan, thread limits, nesting and TSan",
      "Sets up to 1200 points, infinite and arbitrary distances; distance-function and distance-matrix entry points.",
      {"hausdorff_distances": 2000, "infinite_hausdorff": 100, "large_cases": 5})
check("P21", [unit("asan", "near.cpp", "asan", flags=["-DVT_PROP=21"], shards=4)], "distinct sequence pairs",
      "brute-force differential monitor, ASan/UBSan", "Sequences up to 400, tie-rich costs, evaluators reused across sizes.",
      {"alignments": 10000, "large_cases": 20})
check("P22", near(22, 0.1, 0.5), "distinct (distance matrix, bound, strategy)",
      "invariant monitor plus reference greedy clustering, ASan/UBSan, thread limits, TSan",
      "Up to 130 points, tied and distinct distances, infinite entries.",
      {"clusterings": 4000, "unique_clusterings": 1500, "partial_clusterings": 500, "near_ties": 300, "large_cases": 5})
check("P23", near(23), "distinct (data, k, options, seed)",
      "fixpoint and determinism monitor, ASan/UBSan, thread limits, TSan",
      "Up to 8000 points with duplicates; k up to 20; weighted and preliminary modes.",
      {"kmeans_real_runs": 500, "kmeans_rejects": 20, "large_cases": 8})
