SPECIFICATION Spec
CONSTANTS P = 2
 N = 3
 K = 1
 Full = FALSE
INVARIANTS SameSolutions DetTracked SingularIsZero Solved
PROPERTY Ends
CHECK_DEADLOCK FALSE
