SPECIFICATION Spec
CONSTANTS K = 3
 Top = 3
 Vals = {1, 2, 3}
INVARIANTS Sound Strict
CHECK_DEADLOCK FALSE
