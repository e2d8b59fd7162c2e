SPECIFICATION Spec
CONSTANTS G = 6
 V = 3
INVARIANTS Lowest Ordered Minimum OnlyMinimum
PROPERTIES Shrinks NeverAbove
CHECK_DEADLOCK FALSE
