def rrt(prop, shards=4):
    return [unit("asan", "rrt.cpp", "asan", libs=["serialization"], flags=["-DVT_PROP=%d" % prop], shards=shards)]


check("P31", rrt(31), "distinct (tree shape, buffer)",
      "model-based monitor over tree histories, linkage oracle on edited node vectors, damaged buffers, ASan/UBSan",
      "Trees up to 60 nodes with several roots, aliased values and refused additions; mutated linkage; truncated and damaged encodings.",
      {"large_cases": 16, "node_operations": 20000, "children_added_again": 1000, "bad_parents_rejected": 500, "linkages_accepted": 500, "linkages_rejected": 500, "round_trips": 1000, "damaged_rejected": 500, "paths_extracted": 10000})
check("P32", rrt(32), "distinct planning histories",
      "event monitor: scripted planner callbacks with a shadow tree, ASan/UBSan",
      "Branching propagations, several initial roots, missing callbacks, callbacks that throw, user-defined trees and containers.",
      {"large_cases": 50, "single_plans": 1000, "multi_plans": 1500, "paths_checked": 3000, "states_propagated": 50000, "plans_interrupted": 50, "bad_indices_refused": 50})
check("P33", rrt(33), "distinct planning histories",
      "event monitor: scripted planner callbacks with two shadow trees, ASan/UBSan",
      "Random active-tree swaps, tree and state samples, branching propagations, missing callbacks, user-defined trees.",
      {"large_cases": 50, "single_plans": 1000, "multi_plans": 1500, "paths_checked": 3000, "plans_with_swaps": 1000})
check("P34", rrt(34) + [unit("shim_tsan", "rrt.cpp", "tsan-omp", libs=["serialization"], flags=["-DVT_PROP=34"], shards=2, scale=0.2,
                             )],
      "distinct (states, step) and draws",
      "reference monitor of propagation geometry, neighbours, random choices and timeouts; ASan/UBSan and TSan",
      "Three norms, dyadic and real steps, blocked edges, scripted unit draws, real clocks with bracketing.",
      {"large_cases": 28, "connects_blocked": 300, "connects_reached": 1000, "edges_propagated": 5000, "nearest_checked": 500, "choices_checked": 5000, "marginal_lengths": 200, "endless_timeouts": 50, "timeout_checks": 100, "e2e_solved": 40})
