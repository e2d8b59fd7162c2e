SPECIFICATION Spec
CONSTANTS Coords = {3, 8, 13}
INVARIANTS CoordsBack OneParameter InverseOK RotOK AffineOK AdSelf Known SLBasis
CHECK_DEADLOCK FALSE
