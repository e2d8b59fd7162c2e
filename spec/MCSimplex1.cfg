SPECIFICATION Spec
CONSTANTS N = 1
 Depth = 3
 Vals = {0,1,2,100000000}
INVARIANTS TypeOK InStep ExtremesOK
PROPERTIES Refines Descends
CHECK_DEADLOCK FALSE
