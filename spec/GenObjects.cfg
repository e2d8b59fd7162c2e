SPECIFICATION Spec
CONSTANTS Depth = 80
 Slots = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
