SPECIFICATION Spec
CONSTANTS P = 5
 N = 2
 K = 1
 Full = TRUE
INVARIANTS SameSolutions DetTracked SingularIsZero Solved
PROPERTY Ends
CHECK_DEADLOCK FALSE
