check("P06", [unit("asan", "serialization.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=6"], shards=4)],
      "distinct sequences of (value kind, encoded size)",
      "round-trip monitor over random heterogeneous buffers with byte-layout oracle, ASan/UBSan",
      "48 value kinds covering every serializer; bitwise comparison; network layout checked byte by byte.",
      {"values": 5000, "network_layouts": 1000, "large_cases": 50, "in_place_written": 300, "in_place_refused": 300})
check("P07", [unit("asan", "serialization.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=7"], shards=4)],
      "distinct damaged buffers",
      "fault injection on encoded buffers under ASan/UBSan with allocation monitor",
      "Every prefix (thinned for long encodings), hostile size headers, random damage, for every value kind.",
      {"truncations": 5000, "damaged_rejected": 2000, "large_cases": 80, "in_place_refused": 300})
check("P08", [unit("asan", "base64.cpp", "asan", libs=["base64_helpers"], shards=4)],
      "distinct byte strings",
      "differential monitor against an independent RFC 4648 encoder, ASan/UBSan on arbitrary input",
      "All lengths mod 3, all byte values per block position, arbitrary strings for decoding.",
      {"bytes": 20000, "arbitrary_strings": 1000, "runs_of_one_character": 300, "large_cases": 30})
check("P09", [unit("asan", "zlib.cpp", "asan", libs=["zlib_helpers"], shards=8)],
      "distinct inputs / damaged streams",
      "round-trip and fault-injection monitor (bit flips, truncation, full device, file-size limit), ASan/UBSan",
      "Block-boundary sizes up to about 2 MiB; zlib itself is trusted as the reference decoder.",
      {"damage_rejected": 500, "files": 20, "short_writes": 10, "multi_block": 10})
