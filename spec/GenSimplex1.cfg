SPECIFICATION GSpec
CONSTANTS N = 1
 Depth = 12
 Vals = {0, 1, 2, 3, 5, 8, 13, 100000000}
 Choices <- RChoices
INVARIANT Emit
CHECK_DEADLOCK FALSE
