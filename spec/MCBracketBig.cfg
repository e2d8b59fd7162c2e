SPECIFICATION Spec
CONSTANTS K = 4
 Top = 4
 Vals = {1, 2, 3, 4}
INVARIANTS Sound Strict
CHECK_DEADLOCK FALSE
