SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS NoDeadEnd StepValues CorruptRejected TwiceRejected EarlyStepRejected
CHECK_DEADLOCK FALSE
