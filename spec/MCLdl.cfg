SPECIFICATION Spec
CONSTANTS P = 3
 N = 2
 Again = 1
INVARIANTS Remainder UnitLower Minors FullRank Decomposed RankIsLeadingMinors
PROPERTY Ends
CHECK_DEADLOCK FALSE
