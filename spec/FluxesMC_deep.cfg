SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS Antisymmetric WallsClosed Rest UniformTracer Affinely Dissipative Accepted Rejected
CHECK_DEADLOCK FALSE
