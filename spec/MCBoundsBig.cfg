SPECIFICATION Spec
CONSTANTS N = 14
 Hi = 30
INVARIANTS Nested Inside Exact IndexExact Compose
CHECK_DEADLOCK FALSE
