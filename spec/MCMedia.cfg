CONSTANTS
 MaxOps = 4
 Gap = 20000
 Length = 60000
 Late = 1
 Waits = {10000, 100000}
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Once
CHECK_DEADLOCK FALSE
