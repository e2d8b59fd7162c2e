SPECIFICATION Spec
CONSTANTS MaxDim = 6
 Extra = 3
INVARIANTS Refines InsideOnly DoneIffExact Distinct
CHECK_DEADLOCK FALSE
