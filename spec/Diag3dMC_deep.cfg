SPECIFICATION Spec
CONSTANTS Deep = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Accepted
INVARIANT Rejected
INVARIANT Stale
INVARIANT Operators
INVARIANT Eos
