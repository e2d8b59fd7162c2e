SPECIFICATION Spec
CONSTANTS P = 3
 N = 3
 Again = 0
INVARIANTS Remainder UnitLower Minors FullRank Decomposed RankIsLeadingMinors
PROPERTY Ends
CHECK_DEADLOCK FALSE
