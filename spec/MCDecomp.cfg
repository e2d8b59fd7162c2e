SPECIFICATION Spec
CONSTANT W = 2
INVARIANTS ExactAccepted URejects DRejects OrderRejects PinvDetermined RankIs Threshold QRPivots EigenDetermined LUAccepted
CHECK_DEADLOCK FALSE
