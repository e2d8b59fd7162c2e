SPECIFICATION Spec
CONSTANTS Slots = 2
 N = 4
 B = 2
CONSTRAINT Small
INVARIANT Shapes
PROPERTIES OnlyResizable Independent
CHECK_DEADLOCK FALSE
