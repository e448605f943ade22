SPECIFICATION Spec
CONSTANTS
  Vals = {"0", "1", "-2"}
INVARIANTS AffineExact Bounded NodeExact OutsideNearest
CHECK_DEADLOCK FALSE
