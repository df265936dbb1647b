check("P25", [unit("asan", "util.cpp", "asan", flags=["-DVT_PROP=25"], shards=2),
              unit("tsan", "util.cpp", "tsan", flags=["-DVT_PROP=25"], shards=3, scale=0.5)],
      "distinct operation histories / interleavings (by copies taken)",
      "model-based monitor plus TSan over concurrent updates, copies and publication",
      "Sequential histories for four value types; concurrent counters with sampled interleavings.",
      {"atomic_operations": 20000, "atomic_copies_during_updates": 500, "scope_guards": 1000})
check("P26", [unit("asan", "util.cpp", "asan", flags=["-DVT_PROP=26"], shards=4)],
      "distinct inputs",
      "differential monitor against independent models, ASan/UBSan",
      "Small multisets of ints and strings in several containers, extreme scalars, all bit positions.",
      {"large_cases": 140, "many_copies": 10, "subsets": 500, "non_subsets": 500, "equal_collections": 500, "maps": 500, "bit_operations": 3000})
_u = ["-DVT_PROP=27"]
check("P27", [unit("asan", "util.cpp", "asan", flags=_u, shards=2),
              unit("limited", "util.cpp", "fast", flags=_u, shards=1, scale=0.5,
                   env={"OMP_THREAD_LIMIT": "3", "OMP_NUM_THREADS": "6"}),
              unit("dynamic", "util.cpp", "fast", flags=_u, shards=1, scale=0.5,
                   env={"OMP_DYNAMIC": "true", "OMP_NUM_THREADS": "12"}),
              unit("noomp", "util.cpp", "asan-noomp", flags=_u, shards=1)],
      "distinct (ambient setting, nested scope settings)",
      "monitor of the OpenMP settings before, inside and after nested scopes, with thread limits, dynamic teams and exceptions",
      "libgomp's own settings interface is the observer; also the build without OpenMP.",
      {"scopes": 1000, "refused_inside_parallel": 50})
