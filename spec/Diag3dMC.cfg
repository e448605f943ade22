SPECIFICATION Spec
CONSTANTS Deep = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Accepted
INVARIANT Rejected
INVARIANT Stale
INVARIANT Operators
INVARIANT Eos
