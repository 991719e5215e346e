CONSTANTS
 Which = "wrap"
 MaxOps = 5
 Forge = TRUE
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
