SPECIFICATION MSpec
CONSTANTS Depth = 3
 Wide = TRUE
INVARIANTS UpperRight SumSym
CHECK_DEADLOCK FALSE
