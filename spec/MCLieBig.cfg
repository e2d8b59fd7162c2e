SPECIFICATION Spec
CONSTANTS Coords = {0, 3, 7, 8, 9, 13, 16}
INVARIANTS CoordsBack OneParameter InverseOK RotOK AffineOK AdSelf Known SLBasis
CHECK_DEADLOCK FALSE
