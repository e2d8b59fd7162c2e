SPECIFICATION Spec
CONSTANTS R = 2 C = 2 W = 2 Q = 16
INVARIANTS FoldIsDefinition LinesAreLines WholeIsWhole Unique SymmetrizedIs NormLaws MNormLaws CrossLaw RatioTold
CHECK_DEADLOCK FALSE
