CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS Accepted Rejected DiffusionOperator LinearProfile ImplicitDissipation Rotation TracerContent
CHECK_DEADLOCK FALSE
