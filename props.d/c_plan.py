H = "include/common_robotics_utilities/"

P("P31", "Planner trees keep valid linkage through every history",
  "A planner tree contains exactly the values and parent-child links given to it, and the path extracted for any node is its chain of parents from the root; adding a node below a parent that does not exist is refused and changes nothing. The linkage check accepts exactly the node lists in which every parent comes earlier and lists its child and every listed child names its parent; other node lists are never installed. Serialized trees round-trip exactly, truncated encodings are rejected and damaged ones never yield broken linkage.",
  ["inputs", "histories"],
  "all tree histories, node lists and byte buffers",
  "tests build a few trees through one planning problem and never damage them",
  [H + "simple_rrt_planner.hpp"],
  [("SimpleRRTPlannerTree, SimpleRRTPlannerState, ExtractSolutionPath", H + "simple_rrt_planner.hpp")])

P("P32", "RRT grows the tree as propagated and returns exactly the goal paths",
  "For any callbacks, RRT planning adds exactly the propagated states below the nearest neighbour or the named earlier propagated state, reports each addition and each goal state once and in order, and asks about termination before every sample with the current size. It returns exactly the chains from a root to every state meeting the goal, initial states included (only the first, stopping there, for single-path planning), with statistics that add up. Empty optional callbacks are accepted, empty trees and indices that do not exist are refused, and an exception from a callback leaves a tree with valid linkage.",
  ["inputs", "histories"],
  "all callback behaviours, initial trees, tree and container types",
  "tests solve one grid problem with well-behaved callbacks and chain propagations",
  [H + "simple_rrt_planner.hpp"],
  [("RRTPlanMultiPath, RRTPlanSinglePath", H + "simple_rrt_planner.hpp")])

P("P33", "BiRRT grows both trees as propagated and returns exactly the bridges",
  "For any callbacks, bidirectional planning extends only the active tree towards a sampled state or a node of the other tree, adds exactly the propagated states, switches trees exactly as selected, and returns exactly one path per bridge, found initially or later: the start tree's chain to the bridge followed by the goal tree's chain back to its root. Single-path planning returns the first and stops there; callbacks, statistics and refusals are as for RRT.",
  ["inputs", "histories"],
  "all callback behaviours, initial trees, swap sequences, tree and container types",
  "tests solve one grid problem with well-behaved callbacks",
  [H + "simple_rrt_planner.hpp"],
  [("BiRRTPlanMultiPath, BiRRTPlanSinglePath", H + "simple_rrt_planner.hpp")])

P("P34", "RRT helper functions step, choose and time out as promised",
  "Extend and connect propagation return only states on the straight interpolation to the sample, each no further than the step size from the one before and joined by an edge that passed the validity check; extend makes one step, connect goes on to the sample unless an edge is invalid. Nearest-neighbour helpers return a nearest tree node at every degree of parallelism; the random helpers choose tree, state and goal samples and tree switches with the requested probabilities; timeouts expire after the requested time from the first check and not before. Invalid step sizes, probabilities, goal lists and timeouts are rejected.",
  ["inputs", "schedules", "configurations"],
  "all states, step sizes, validity relations, random draws and thread counts",
  "tests use one step size and never compare against geometry",
  [H + "simple_rrt_planner.hpp"],
  [("MakeKinematic...PropagationFunction, TimeoutCheckHelper, Make... helpers", H + "simple_rrt_planner.hpp")])

P("P35", "Voxel grids store one independent value per cell, behind their hooks",
  "A voxel grid holds exactly one value per cell, initially the default: a write by index, location or data index changes that cell only, reads return the value last written, resets set every cell, and out-of-bounds accesses are reported and change nothing. Every access for writing asks the grid's access hook first, with that cell's indices, and a refused access changes nothing. Clones and copies are equal and independent, and changing defaults or the origin leaves stored values alone.",
  ["inputs", "histories"],
  "all access histories, cell counts, value types and access policies",
  "tests fill and read back one grid size through an always-permitting hook",
  [H + "voxel_grid.hpp"],
  [("VoxelGridBase, VoxelGrid, GridQuery", H + "voxel_grid.hpp")])

P("P36", "Voxel grid indices, data indices and locations map consistently",
  "Data indices number the cells of a grid from zero without gaps or repeats, and converting to a grid index and back is the identity. Every location maps to the one cell whose half-open box contains it in the grid's frame, a cell's centre maps back to that cell, in-bounds tests agree with both, and all of it follows the current origin transform; far away locations are out of bounds and non-points are rejected. Grid sizes made from lengths cover them with as few whole cells as possible, and sizes that are not positive and finite, or whose cell count cannot be represented, are rejected.",
  ["inputs"],
  "all grid sizes, origins, indices and locations",
  "tests use one cubic grid with unit cells and an axis-aligned origin",
  [H + "voxel_grid.hpp"],
  [("GridSizes, GridIndex, VoxelGridBase location mapping", H + "voxel_grid.hpp")])

P("P37", "Voxel grid serialization round-trips and survives damaged buffers",
  "Serializing any voxel grid, spatial-hashed grid, grid sizes or chunk region, including members of derived grids and uninitialised grids, and deserializing it at any offset restores sizes, origin, defaults and every cell, with exactly the reported byte counts. Truncated encodings are rejected; damaged ones are rejected or yield an object that is consistent and safe to use, without out-of-bounds access or disproportionate allocation.",
  ["inputs", "faults"],
  "all grids, value types, offsets and damaged buffers",
  "tests round-trip undamaged grids at offset zero",
  [H + "voxel_grid.hpp", H + "dynamic_spatial_hashed_voxel_grid.hpp"],
  [("SerializeSelf, DeserializeSelf of both grid families", H + "voxel_grid.hpp"), ("BaseSerializeSelf, chunk serialization", H + "dynamic_spatial_hashed_voxel_grid.hpp")])

P("P38", "Spatial-hashed voxel grids behave like an unbounded sparse grid",
  "In a dynamic spatial-hashed voxel grid every finite location belongs to exactly one cell, also on chunk and cell boundaries: a cell set changes that cell only, a chunk set the whole containing chunk, a first set allocates just that chunk with the default value elsewhere, and queries return the last value with the right found status, or not-found for untouched chunks. Setting never fails at a finite location, non-finite locations are never stored, values may be copied from the grid itself, and every access for writing asks the access hook first, with the location in the grid's frame, and changes nothing if refused. Clones are independent and changing the default or origin leaves stored values alone.",
  ["inputs", "histories"],
  "all access histories, chunk sizes, origins and locations",
  "tests fill chunks of one size at cell centres only",
  [H + "dynamic_spatial_hashed_voxel_grid.hpp"],
  [("DynamicSpatialHashedVoxelGridBase, DynamicSpatialHashedVoxelGridChunk", H + "dynamic_spatial_hashed_voxel_grid.hpp")])
