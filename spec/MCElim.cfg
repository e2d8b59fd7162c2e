SPECIFICATION Spec
CONSTANTS P = 3
 N = 2
 K = 2
 Full = FALSE
INVARIANTS SameSolutions DetTracked SingularIsZero Solved
PROPERTY Ends
CHECK_DEADLOCK FALSE
