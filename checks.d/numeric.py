def _m(pid, *a, **k):
    extra = k.pop("unit", {})
    shards, scale = k.pop("shards", 3), k.pop("scale", 1.0)
    flags = ["-DVT_PROP=" + pid[1:]]
    check(pid, [unit("fast", "mathx.cpp", "fast", libs=["math"], flags=flags, shards=shards, **extra),
                unit("asan", "mathx.cpp", "asan-lite" if extra else "asan", libs=["math"], flags=flags, shards=2,
                     scale=0.05, **extra)], *a, **k)


_m("P42", "distinct angle sets", "differential monitor against exact remainders in extended precision",
   "Angles of every magnitude up to 1e15, multiples of pi and their neighbours.",
   {"distances": 500000, "inside": 100000, "outside": 100000, "interpolations": 500000, "already_wrapped": 100000})
_m("P43", "distinct inputs", "differential monitor against extended-precision references",
   "Scalars from 1e-100 to 1e100, 0 to 6 dimensions, ratios in and out of range, identical and opposite rotations.",
   {"interpolations": 200000, "rotations": 50000, "multilinear_queries": 100000, "bad_inputs": 100000})
_m("P44", "distinct inputs", "differential monitor against extended-precision references and an independent eigenvalue solver",
   "1 to 12 items, zero, negative and equal weights, clustered and tied rotations.",
   {"averages": 5000, "quaternion_averages": 5000, "unique_quaternion_averages": 3000, "zero_weights": 100, "arithmetic": 8000,
    "clamped": 2000, "bad_inputs": 50000})
_m("P45", "distinct twists and poses", "differential monitor against an extended-precision series exponential",
   "Rotation rates from 0 and 1e-60 to 3, steps up to 3.13 radians.",
   {"exponentials": 15000, "twists_between": 15000, "bad_inputs": 5000}, unit={"real_matrix_functions": True})
_m("P46", "distinct vectors and planes", "differential monitor and optimality comparisons",
   "1 to 6 dimensions, zero and near-axis vectors, degenerate point sets.",
   {"projections": 15000, "orthogonal": 20000, "plane_queries": 15000, "fits": 3000, "fit_comparisons": 50000})
_R = ["-DCOMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION=1"]
check("P47", [unit("asan", "conv.cpp", "asan", libs=["conversions", "ros_conversions"], flags=["-DVT_PROP=47"] + _R, shards=4)],
      "distinct poses and vectors", "differential monitor against explicit rotation matrices, ASan/UBSan",
      "Angles up to 7 radians including gimbal lock; ROS messages are plain structures of our own.",
      {"poses": 50000, "messages": 50000, "vectors": 5000, "bad_inputs": 10000})
check("P48", [unit("asan", "conv.cpp", "asan", flags=["-DVT_PROP=48"], shards=4)],
      "distinct inputs", "differential monitor against an independent renderer and color model, ASan/UBSan",
      "23 container types and 6 nestings of up to 3 elements; out-of-range and infinite channels, empty ranges.",
      {"printed_nonempty": 50000, "colors": 3000, "gradients": 2000, "empty_gradients": 100})
