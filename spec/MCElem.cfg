SPECIFICATION Spec
CONSTANTS U = 64 K = 2 Types = {"i", "f", "d", "q"} Steps = 3
INVARIANTS TypeOK MTypeOK Compared ResultTypes
PROPERTY Kept
CHECK_DEADLOCK FALSE
