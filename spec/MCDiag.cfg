SPECIFICATION Spec
CONSTANTS MaxN = 2
 Vals = {0, 1, 2, 3}
INVARIANTS Elementwise Rows Transposed Inverse
PROPERTIES Sharing Independent
CHECK_DEADLOCK FALSE
