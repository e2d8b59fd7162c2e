SPECIFICATION Spec
CONSTANTS N = 7
INVARIANTS Assoc AssocShape Transposed Symm Distr VecLaws
CHECK_DEADLOCK FALSE
