SPECIFICATION Spec
CONSTANTS
  Vals = {"0", "1", "3"}
INVARIANTS MeanKept Between Constant Wrong
CHECK_DEADLOCK FALSE
