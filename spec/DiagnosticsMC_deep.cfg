SPECIFICATION Spec
CONSTANTS
  N = 6
INVARIANTS Allowed Complete FaultsRejected
CHECK_DEADLOCK FALSE
