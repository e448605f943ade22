SPECIFICATION Spec
CONSTANTS Depth = 2
 Cls = "NonhydrostaticModelOptions"
INVARIANTS Accepted Matched OrderFree Faulty Leaks
CHECK_DEADLOCK FALSE
