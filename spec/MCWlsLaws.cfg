SPECIFICATION MSpec
CONSTANTS Depth = 1
 Wide = TRUE
INVARIANTS UpperRight SumSym Batches Commutes
CHECK_DEADLOCK FALSE
