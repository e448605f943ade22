SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS Accepted Rejected VolumeTheorem MassTheorem ProductRule Uniform Superpose Mirror Walls
CHECK_DEADLOCK FALSE
