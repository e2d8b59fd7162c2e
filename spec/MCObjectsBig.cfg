SPECIFICATION Spec
CONSTANTS Slots = 2
 N = 5
 B = 4
CONSTRAINT Small
INVARIANT Shapes
PROPERTIES OnlyResizable Independent
CHECK_DEADLOCK FALSE
