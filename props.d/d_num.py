H = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"
TOTP = "time_optimal_trajectory_parametrization"

P("P39", "TOTP trajectories follow the path within limits in the shortest time",
  "For distinct finite waypoints and positive limits, a trajectory starts at rest at the first waypoint, ends at rest at the last, and in between moves forward along the given straight edges with circular blends of at most the requested deviation at corners; its velocity is the derivative of its position and never exceeds a joint's limit by more than the effect of one time step. With blended (or no) corners turning less than a full reversal, joint accelerations stay within their limits up to a few time steps and the duration matches the true minimum; without blending this holds along each edge. A time step may be refused as too coarse with runtime_error, but refining it yields a trajectory.",
  ["inputs"],
  "all paths, joint counts, limits, deviations and time steps",
  "tests check no trajectory against its limits or optimality, and violations need particular switching structures",
  [H + TOTP + ".hpp", S + TOTP + ".cpp"],
  [("ParametrizePathTOTP, Trajectory, Path", S + TOTP + ".cpp")])

P("P40", "TOTP answers do not depend on query history and bad input is rejected",
  "The state a trajectory reports for a time within its duration is the same whatever was asked before, in any order, of this object or any clone, and clones work unchanged after the original is destroyed; negative or NaN times are rejected without other effect. Repeating a waypoint does not change the trajectory. Paths with fewer than two distinct waypoints, non-finite waypoints, limits, deviation or time step, mismatched sizes and non-positive time steps are rejected with invalid_argument instead of hanging.",
  ["histories", "inputs"],
  "all query and clone histories, times and malformed inputs",
  "the cached segment only goes wrong for particular query orders and object lifetimes",
  [H + TOTP + ".hpp", S + TOTP + ".cpp"],
  [("GetTrajectorySegment, Clone, ParametrizePathTOTP", S + TOTP + ".cpp")])

P("P41", "Task planning picks optimal primitive sequences and executes them faithfully",
  "With consistent (or no) heuristics, the planned task sequence is a cheapest one from any of the given states to completion, every step being a listed outcome of a primitive that accepts the previous state. Execution repeatedly selects the outcome that is cheapest to complete from, executes exactly the first planned primitive once from exactly that state, reports each step through its callbacks in order, and stops at completion or the execution limit; the returned trace is exactly the selected states, and empty or unsolvable outcomes are reported by exceptions. A primitive collection holds distinct names in registration order.",
  ["inputs", "histories"],
  "all task worlds, primitives, heuristics, execution outcomes and limits",
  "tests run one task with one outcome behaviour",
  [H + "simple_task_planner.hpp"],
  [("PlanTaskStateSequence, GetNextPrimitiveToExecute, PerformSingleTaskExecution, ActionPrimitiveCollection", H + "simple_task_planner.hpp")])

P("P42", "Continuous revolute angles wrap, measure, contain and interpolate consistently",
  "Wrapping any finite angle gives the equivalent one in [-pi, pi) and changes angles already there only by rounding; signed distance is the short way round and adding it to the start reaches the end. A value is within a range or between two bounds exactly when going up from the start reaches it before the range ends, both ends included. Interpolation moves from start to end the short way at constant rate, clamping the ratio, and its result is wrapped.",
  ["inputs"],
  "all angles of any finite magnitude",
  "tests sample a few angles, and the failures sit at wrap-around points and single rounding errors",
  [H + "math.hpp", S + "math.cpp"],
  [("EnforceContinuousRevoluteBounds, ContinuousRevoluteSignedDistance, CheckInContinuousRevoluteBounds, InterpolateContinuousRevolute", S + "math.cpp")])

P("P43", "Interpolation hits its ends at constant rate and distances are exact",
  "Interpolating scalars, vectors, rotations and transforms returns the ends at ratios of at most 0 and at least 1 and in between lies that fraction of the way along the straight line or shortest rotation, rotations staying rigid; bilinear and trilinear interpolation reproduce every function that is linear in each coordinate. Distances are the Euclidean length, the rotation angle whatever the quaternion signs, or their weighted sum. Mismatched sizes are rejected with invalid_argument.",
  ["inputs"],
  "all values, ratios, rotations and transforms",
  "tests cover revolute interpolation only",
  [H + "math.hpp", S + "math.cpp"],
  [("Interpolate, LinearInterpolate, BilinearInterpolate, TrilinearInterpolate, Distance", S + "math.cpp")])

P("P44", "Averages, spreads and vector arithmetic match their definitions",
  "Averages of scalars and vectors are the mean weighted by absolute weights, the standard deviation is that of a sample, and averaged rotations are the unit quaternion maximising the sum of squared weighted inner products, whatever the order and signs of the inputs; averaged transforms combine both and stay rigid. Empty input, mismatched sizes and weights that are all zero are rejected with invalid_argument. Element-wise arithmetic, norms, weighted products and angles and norm clamping equal their definitions, with cosines kept in [-1, 1].",
  ["inputs"],
  "all collections, weights and rotations",
  "no test exercises these functions",
  [H + "math.hpp", S + "math.cpp"],
  [("AverageStdVectorDouble, AverageEigenVector, AverageEigenQuaterniond, AverageEigenIsometry3d, ClampNorm, WeightedAngleBetweenVectors", S + "math.cpp")])

P("P45", "Twists, adjoints and exponentials obey rigid motion algebra",
  "Skew and hat forms are linear, invert exactly and act as cross product and twist matrix; the exponential of a twist over a time is the matrix exponential of its hat, rigid, and composes over time. The adjoint of a transform moves twists exactly as conjugation moves their hat forms and respects composition and inversion. The twist between two poses, followed for unit time from the first, reaches the second along the shorter rotation, and a rotation axis that is not a unit vector is rejected with invalid_argument.",
  ["inputs"],
  "all twists, times and poses with rotations under pi between them",
  "no test exercises these functions",
  [H + "math.hpp", S + "math.cpp"],
  [("ExpTwist, ExpMatrixExact, TwistBetweenTransforms, AdjointFromTransform, TwistHat, Skew", S + "math.cpp")])

P("P46", "Projections, orthogonal vectors and fitted planes are geometrically correct",
  "Projection and rejection split a vector into parts parallel and perpendicular to the base, all of it being rejected when the base is zero; an arbitrary orthogonal vector is nonzero and perpendicular to the given one, or is refused when there is none. A plane's distances and projections are those of its geometry whatever the length of its normal. A plane fitted to points passes through their centroid with a unit normal and no other plane there has smaller squared distances.",
  ["inputs"],
  "all vectors, planes and point sets",
  "no test exercises these functions, and failures need components that cancel almost exactly",
  [H + "math.hpp", S + "math.cpp"],
  [("VectorProjection, GetArbitraryOrthogonalVector, Hyperplane, FitPlaneToPoints", H + "math.hpp")])

P("P47", "Conversions between pose, angle, container and message forms agree",
  "Roll-pitch-yaw conversions build the product of the axis rotations in XYZ order (ZYX for the URDF variants) with the exact translation, in every form offered, and angles extracted from any rotation rebuild it, also at gimbal lock. Conversions between standard vectors, Eigen types and ROS messages keep every element in its place, quaternions as x, y, z, w, and convert back to the same value. Vectors of the wrong size are rejected with invalid_argument.",
  ["inputs"],
  "all angles, poses, vectors and message lists",
  "no test exercises these functions",
  [H + "conversions.hpp", S + "conversions.cpp", S + "ros_conversions.cpp", H + "ros_helpers.hpp"],
  [("QuaternionFromRPY, TransformToRPY, EigenIsometry3dToGeometryPose", S + "conversions.cpp")])

P("P48", "Colors stay valid and printing renders every container faithfully",
  "Color channels given as numbers are clamped to [0, 1] and bytes convert to channels and back unchanged; the hot-to-cold map yields valid colors for every value, running without jumps from blue at the minimum to red at the maximum; the 20 unique colors differ. Printing renders every element of a supported container, however nested, once, in iteration order, with the given separator and, on request, brackets for its kind; numbers in Eigen types keep 12 digits.",
  ["inputs"],
  "all channels, ranges, containers and nestings",
  "tests only print to the screen",
  [H + "color_builder.hpp", H + "print.hpp"],
  [("InterpolateHotToCold, LookupUniqueColor, Print", H + "print.hpp")])
