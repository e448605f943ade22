SPECIFICATION Spec
CONSTANTS Depth = 4
 Cls = "NonhydrostaticModelOptions"
INVARIANTS Accepted Matched OrderFree Faulty Leaks
CHECK_DEADLOCK FALSE
