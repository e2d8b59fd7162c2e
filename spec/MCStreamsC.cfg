SPECIFICATION Spec
CONSTANTS Vals <- ValsHere MaxEls = 2 WS = {0, 4} T = "c"
INVARIANTS Queue Order FailOnlyOver
VIEW View
CHECK_DEADLOCK FALSE
