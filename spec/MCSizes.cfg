SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS Assoc AssocShape Transposed Symm Distr VecLaws
CHECK_DEADLOCK FALSE
