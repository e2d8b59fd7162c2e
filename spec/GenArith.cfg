SPECIFICATION Spec
CONSTANT Depth = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
