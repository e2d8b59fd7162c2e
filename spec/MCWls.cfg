SPECIFICATION MSpec
CONSTANTS Depth = 3
 Wide = FALSE
INVARIANTS UpperRight SumSym
CHECK_DEADLOCK FALSE
