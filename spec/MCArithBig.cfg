SPECIFICATION Spec
CONSTANTS N = 2
 Bound = 2
 MaxLevel = 2
 Scalars = {2, -1}
 Wide = TRUE
CONSTRAINT Bounded
INVARIANTS Shapes Laws
PROPERTY OneWrite
CHECK_DEADLOCK FALSE
