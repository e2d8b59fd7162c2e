SPECIFICATION Spec
CONSTANTS R = 3 C = 3 W = 1 Q = 16
INVARIANTS FoldIsDefinition LinesAreLines WholeIsWhole Unique SymmetrizedIs NormLaws MNormLaws CrossLaw RatioTold
CHECK_DEADLOCK FALSE
