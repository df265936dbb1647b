L = ["math", "time_optimal_trajectory_parametrization"]
check("P39", [unit("fast", "totp.cpp", "fast", libs=L, flags=["-DVT_PROP=39"], shards=6, scale=4),
              unit("asan", "totp.cpp", "asan", libs=L, flags=["-DVT_PROP=39"], shards=2, scale=0.02)],
      "distinct (path, limits, deviation, timestep)",
      "online trajectory monitor against an independent blended path and an independent reachable-set optimum, ASan/UBSan",
      "1 to 9 joints, 2 to 25 waypoints, turns up to 172 degrees, nearly straight and nearly repeated waypoints, exact reversals (known finding), time steps 1-5 ms.",
      {"trajectories": 3000, "states_checked": 1000000, "window_checks": 5000000, "arcs_followed": 3000, "nearly_straight": 200, "hardly_moving": 30, "many_joints": 100, "long_paths": 30})
check("P40", [unit("asan", "totp.cpp", "asan", libs=L, flags=["-DVT_PROP=40"], shards=4)],
      "distinct (path, limits, deviation, timestep)",
      "history-independence and fault-injection monitor, ASan/UBSan",
      "Random query orders over clones whose originals are destroyed; bad times, limits, waypoints and sizes.",
      {"queries": 10000, "clones": 1000, "originals_destroyed": 500, "bad_times": 1000, "bad_inputs": 2000, "repeated_waypoints": 200})
