check("P10", [unit("asan", "random.cpp", "asan", flags=["-DVT_PROP=10"], shards=4),
               unit("huge", "random.cpp", "fast", flags=["-DVT_PROP=10", "-DVT_HUGE"], shards=3, hang_s=240)],
      "distinct (operation history, seed)",
      "differential monitor against independently written reference generators, UBSan",
      "Histories of draw, discard, reseed, copy and assign for all three generators; single discards around powers of two and past 2^32.",
      {"draws": 20000, "reseeds": 500, "discards": 500, "long_discards": 200})
check("P11", [unit("asan", "random.cpp", "asan", flags=["-DVT_PROP=11"], shards=4)],
      "distinct generator streams",
      "statistical monitor (Kolmogorov-Smirnov against the uniform rotation measure) plus exact unit-norm checks",
      "Deviation threshold at odds of about 1e-12 per statistic.",
      {"rotations": 50000, "uniformity_statistics": 100})
check("P12", [unit("asan", "random.cpp", "asan", flags=["-DVT_PROP=12"], shards=4)],
      "distinct (range, container size)",
      "range/proportionality monitor over all integer widths with extreme draws, UBSan",
      "Container sizes up to 2^52; ranges up to the full range of every integer type.",
      {"draws_checked": 50000})
