SPECIFICATION Spec
CONSTANTS U = 64 K = 3 Types = {"i", "f", "d", "l", "c", "cf", "q", "h"} Steps = 7
INVARIANTS TypeOK MTypeOK Compared ResultTypes
PROPERTY Kept
CHECK_DEADLOCK FALSE
