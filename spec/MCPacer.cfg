CONSTANTS
 MaxOps = 5
 Ns = {1, 3}
 Spreads = {0, 7}
 Steps = {1000, 4667, 9000}
 Asks = FALSE
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Prop
CHECK_DEADLOCK FALSE
