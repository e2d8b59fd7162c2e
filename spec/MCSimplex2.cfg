SPECIFICATION Spec
CONSTANTS N = 2
 Depth = 2
 Vals = {0,1,2}
INVARIANTS TypeOK InStep ExtremesOK
PROPERTIES Refines Descends
CHECK_DEADLOCK FALSE
