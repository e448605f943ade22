SPECIFICATION Live
CONSTANTS
  DTs = {"1/2", "1", "3/2", "3"}
  TEXPs = {"1", "2", "5/4"}
  TENDs = {"0", "1", "3", "7/2", "5"}
INVARIANTS Invariants EmitsAllowed CorruptRejected NoDeadEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
