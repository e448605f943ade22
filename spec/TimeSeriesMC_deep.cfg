SPECIFICATION Spec
CONSTANTS
  Line = {0, 1, 2, 3, 4, 5, 6}
  MaxFiles = 4
  Queries = {"-1/2", "0", "1/2", "1", "3/2", "2", "9/4", "3", "4", "5", "11/2"}
INVARIANTS FindAgrees InterpAgrees CacheSound WrongRejected
CHECK_DEADLOCK FALSE
