def par(prop, scale_tsan=0.35):
    d = ["-DVT_PROP=%d" % prop]
    return [
        unit("omp_asan", "parallel.cpp", "asan", flags=d, shards=2),
        unit("omp_limited", "parallel.cpp", "fast", flags=d, shards=1, scale=0.5,
             env={"OMP_THREAD_LIMIT": "3", "OMP_NUM_THREADS": "3"}),
        unit("noomp_tsan", "parallel.cpp", "tsan", flags=d, shards=2, scale=scale_tsan),
        unit("shim_tsan", "parallel.cpp", "tsan-omp", flags=d, shards=2, scale=scale_tsan),
    ]


A = ["The OpenMP runtime shim used for the ThreadSanitizer build follows the GNU OpenMP ABI; "
     "libgomp itself is trusted.",
     "Interleavings are sampled (jitter, oversubscription, thread limits), not enumerated."]
check("P01", par(1), "distinct (loop kind, backend, range start, range size, thread count) with >1 index",
      "per-index counting monitor over ASan/UBSan and TSan runs of all loop kinds and backends",
      "Every index counted with atomics plus an unsynchronised write per index that TSan watches; "
      "sampled schedules.", {"indices": 5000, "nested_loops": 50, "ranges_beyond_int32": 100}, A)
check("P02", par(2), "distinct (loop configuration, observed thread-number sequence)",
      "online monitor of running calls per thread number, TSan on per-thread scratch",
      "Concurrency observed on the machine's real threads with injected jitter.",
      {"functor_calls": 5000, "cases_with_real_concurrency": 20,
       "cases_with_concurrent_inner_loops": 20}, A)
check("P03", par(3), "distinct (loop configuration, index whose exception was delivered)",
      "fault injection in loop bodies with live-call monitor",
      "Exceptions of three kinds injected at chosen indices on every backend.",
      {"exceptions_observed": 200}, A)
check("P04", par(4), "distinct (range, thread count)",
      "partition oracle over computed and handed-out ranges",
      "All threads' ranges checked for counts up to 5000, sampled pairs beyond.",
      {"ranges": 5000}, A)
