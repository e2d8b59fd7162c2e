SPECIFICATION Spec
CONSTANTS P = 5
 N = 3
 Again = 0
INVARIANTS Remainder UnitLower Minors FullRank Decomposed RankIsLeadingMinors

CHECK_DEADLOCK FALSE
