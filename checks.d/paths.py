check("P24", [unit("asan", "paths.cpp", "asan", libs=["math"], shards=4)],
      "distinct (path, shortcut window / smoothing history / resample distance)",
      "invariant monitor over smoothing and resampling histories, ASan/UBSan",
      "Geometric worlds and adversarial pseudo-random directional edge validity; deque and vector paths.",
      {"large_cases": 350, "paths_smoothed": 1000, "paths_changed": 300, "shortcuts_made": 200, "marginal_shortcuts": 2000, "resampled_segments": 5000})
