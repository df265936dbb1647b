check("P50", [unit("asan", "graphtext.cpp", "asan", libs=["serialization"], shards=3)],
      "distinct graph texts and edge pairs",
      "monitor parsing every printed or streamed edge, node, graph and overlay back into its contents, ASan/UBSan",
      "Graphs up to 120 nodes over four value types; overlays that take over nodes while they are watched.",
      {"printed_graph": 500, "printed_node": 1500, "printed_edge": 1500, "printed_overlay": 1500, "equal_edges": 500, "unequal_edges": 2000})
