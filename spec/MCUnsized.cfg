SPECIFICATION Spec
CONSTANTS MaxDim = 2
 Bound = 4
CONSTRAINT Bounded
INVARIANT IdentityLaw
PROPERTIES SameDims Kinds
CHECK_DEADLOCK FALSE
