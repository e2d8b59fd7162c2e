SPECIFICATION Spec
CONSTANTS N = 3
 P = 5
 Depth = 1
 Scales = {1, 2}
INVARIANTS Products InPlace Inverses Rotation Actions Adjoints
CHECK_DEADLOCK FALSE
