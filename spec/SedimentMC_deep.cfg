CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANTS Accepted Rejected Closure Steady Threshold BedloadLaws Balance ClosedBed
CHECK_DEADLOCK FALSE
