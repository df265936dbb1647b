L = ["base64_helpers", "conversions", "math", "serialization", "time_optimal_trajectory_parametrization", "zlib_helpers"]
check("P49", [unit("noomp_tsan", "shared.cpp", "tsan", libs=L, shards=4),
              unit("shim_tsan", "shared.cpp", "tsan-omp", libs=L, shards=4, scale=0.6)],
      "distinct (threads, jobs, answers)",
      "ThreadSanitizer over concurrent jobs on shared constant objects, own objects and own cells, answers compared with running alone",
      "22 kinds of const job on one shared world, 9 kinds on own objects, 2 to 5 threads, nested parallel calls, disjoint cell writes.",
      {"shared_jobs": 3000, "own_jobs": 1000, "job_formats": 80, "job_averages": 80, "job_geometry": 80, "job_implicit-search": 80, "job_loops": 60, "job_task": 60, "cells_written": 5000, "cases_with_4_threads_or_more": 200})
