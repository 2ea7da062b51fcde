CONSTANTS Limit = 4
 BS = 3
 MaxSize = 11
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
INVARIANTS Bounded NothingBefore Accepted Served
