CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS Accepted Rejected Closure Steady Threshold BedloadLaws Balance ClosedBed
CHECK_DEADLOCK FALSE
