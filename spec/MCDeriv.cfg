SPECIFICATION MSpec
CONSTANTS Dim = 3 Reps = 3 Coefs = {0, 1, 2} MaxDeg = 4 Points = {0, 3}
INVARIANTS OnlyTask Live
CHECK_DEADLOCK FALSE
