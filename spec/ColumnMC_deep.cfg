CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANTS Accepted Rejected DiffusionOperator LinearProfile ImplicitDissipation Rotation TracerContent
CHECK_DEADLOCK FALSE
