SPECIFICATION Spec
CONSTANTS MaxN = 3
 Vals = {0, 1, 3}
INVARIANTS Elementwise Rows Transposed Inverse
PROPERTIES Sharing Independent
CHECK_DEADLOCK FALSE
