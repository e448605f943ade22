SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS NoDeadEnd StepValues CorruptRejected TwiceRejected EarlyStepRejected
CHECK_DEADLOCK FALSE
