SPECIFICATION Spec
CONSTANTS Deep = FALSE
INVARIANTS Antisymmetric WallsClosed Rest UniformTracer Affinely Dissipative Accepted Rejected
CHECK_DEADLOCK FALSE
