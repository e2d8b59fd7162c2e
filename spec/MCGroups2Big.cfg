SPECIFICATION Spec
CONSTANTS N = 2
 P = 7
 Depth = 3
 Scales = {1, 3}
INVARIANTS Products InPlace Inverses Rotation Actions Adjoints
CHECK_DEADLOCK FALSE
