SPECIFICATION Spec
CONSTANTS MaxDim = 4
 Extra = 3
INVARIANTS Refines InsideOnly DoneIffExact Distinct
CHECK_DEADLOCK FALSE
