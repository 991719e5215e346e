CONSTANTS
 Fams = 2
 MaxOps = 5
 Steps = {50000, 2500000, 5000000}
 Goods = {TRUE, FALSE}
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Kept
CHECK_DEADLOCK FALSE
