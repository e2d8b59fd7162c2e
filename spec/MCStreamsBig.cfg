SPECIFICATION Spec
CONSTANTS Vals <- ValsHere MaxEls = 4 WS = {0, 2, 5} T = "r"
INVARIANTS Queue Order FailOnlyOver
VIEW View
CHECK_DEADLOCK FALSE
