SPECIFICATION Spec
CONSTANT B <- SmallB
INVARIANTS NormKeeps AddExact MulClose SmallOK NearOK SignOK
CHECK_DEADLOCK FALSE
