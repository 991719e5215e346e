CONSTANTS
 MaxOps = 2
 Takes = {1, 2, 3, 4, 5, 6}
INIT Init
NEXT Next
INVARIANTS Inv Back
CHECK_DEADLOCK FALSE
