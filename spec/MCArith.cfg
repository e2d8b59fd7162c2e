SPECIFICATION Spec
CONSTANTS N = 2
 Bound = 1
 MaxLevel = 2
 Scalars = {2}
 Wide = FALSE
CONSTRAINT Bounded
INVARIANTS Shapes Laws
PROPERTY OneWrite
CHECK_DEADLOCK FALSE
