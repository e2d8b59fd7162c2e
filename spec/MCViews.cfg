SPECIFICATION Spec
CONSTANTS R = 2
 C = 2
 Depth = 2
INVARIANTS Injective Within Shrinks TT SliceOfSlice
PROPERTIES Frame ReadBack
CHECK_DEADLOCK FALSE
