SPECIFICATION Spec
CONSTANTS Deep = FALSE
INVARIANTS Accepted Rejected WrongTime Telescope TelescopeTracer Closed MeanBetween
CHECK_DEADLOCK FALSE
