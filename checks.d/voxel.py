def vox(prop, shards=4):
    return [unit("asan", "voxel.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=%d" % prop], shards=shards)]


check("P35", vox(35), "distinct (operation history, grid size)",
      "model-based monitor over access histories with recorded and scripted access hooks, ASan/UBSan",
      "Four value types, two backing stores, prohibited and out-of-bounds accesses, aliased resets; every cell compared after every step.",
      {"histories": 1000, "writes": 5000, "prohibited": 1000, "out_of_bounds": 1000, "hook_checks": 10000, "aliased_resets": 300, "clones": 2000, "large_cases": 30})
check("P36", vox(36), "distinct (sizes, origin) configurations",
      "reference monitor of index and location arithmetic, ASan/UBSan",
      "Dyadic grids with locations exactly on cell borders; arbitrary cell sizes and rigid origins; indices far outside.",
      {"indices_checked": 50000, "huge_counts": 1000, "sizes_compared": 1000, "nearly_uniform": 300, "locations_mapped": 50000, "far_locations": 1000, "small_origin_changes": 500, "large_cases": 200})
check("P37", vox(37), "distinct serialized grids",
      "round-trip and fault-injection monitor with consistency re-check, ASan/UBSan, allocation watch",
      "Grids with derived members, four value types; truncation, byte damage and hostile 64-bit counts.",
      {"round_trips": 3000, "truncations": 3000, "damage_rejected": 2000, "miscounted_rejected": 500, "damaged_sizes_valid": 100, "large_cases": 20})
check("P38", vox(38), "distinct (operation history, chunk count)",
      "model-based monitor over sparse grid histories with recorded and scripted access hooks, ASan/UBSan",
      "Chunks on both sides of the origin, locations on and within an ulp of chunk and cell borders, non-finite locations, aliased sets.",
      {"histories": 1000, "sets": 10000, "prohibited": 500, "chunks_expanded": 500, "aliased_sets": 300, "boundary_locations": 10000, "clones": 500, "not_found": 1000, "large_cases": 25, "direct_chunk_sets": 300})
