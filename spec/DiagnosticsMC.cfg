SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Allowed Complete FaultsRejected
CHECK_DEADLOCK FALSE
