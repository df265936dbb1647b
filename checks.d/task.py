check("P41", [unit("asan", "task.cpp", "asan", shards=4)],
      "distinct (task world, start states)",
      "event-log monitor replayed against a reference planner, ASan/UBSan",
      "Up to 12 states and 5 primitives, surprising, several and no outcomes, equal states told apart by a tag.",
      {"large_cases": 160, "no_progress_executions": 500, "plans": 5000, "plan_steps": 5000, "executions": 3000, "completed_tasks": 1000, "failed_runs": 300, "unsolvable_plans": 300,
       "duplicates_refused": 300, "selections": 2000})
