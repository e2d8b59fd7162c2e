SPECIFICATION MSpec
CONSTANTS Dim = 4 Reps = 4 Coefs = {0, 1, 2, 5} MaxDeg = 4 Points = {0, 5}
INVARIANTS OnlyTask Live
CHECK_DEADLOCK FALSE
