SPECIFICATION Spec
CONSTANTS N = 7
 Hi = 12
INVARIANTS Nested Inside Exact IndexExact Compose
CHECK_DEADLOCK FALSE
