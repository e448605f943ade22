SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS Accepted Rejected WrongTime Telescope TelescopeTracer Closed MeanBetween
CHECK_DEADLOCK FALSE
