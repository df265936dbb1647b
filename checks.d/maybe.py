check("P05", [unit("asan", "maybe.cpp", "asan", shards=4)],
      "distinct operation/state histories",
      "object-lifetime ledger and optional-model monitor with injected copy/move faults, ASan/UBSan",
      "Every contained object tracked by address through random histories.",
      {"ops": 20000, "throwing_copies_or_moves": 500, "ref_ops": 5000})
