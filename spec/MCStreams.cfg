SPECIFICATION Spec
CONSTANTS Vals <- ValsHere MaxEls = 3 WS = {0, 4} T = "r"
INVARIANTS Queue Order FailOnlyOver
VIEW View
CHECK_DEADLOCK FALSE
