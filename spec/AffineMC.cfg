SPECIFICATION Spec
CONSTANTS Deep = FALSE
INVARIANTS Accepted Rejected VolumeTheorem MassTheorem ProductRule Uniform Superpose Mirror Walls
CHECK_DEADLOCK FALSE
