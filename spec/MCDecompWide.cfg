SPECIFICATION Spec
CONSTANT W = 3
INVARIANTS ExactAccepted URejects DRejects OrderRejects PinvDetermined RankIs Threshold QRPivots EigenDetermined LUAccepted
CHECK_DEADLOCK FALSE
