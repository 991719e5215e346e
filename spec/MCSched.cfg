INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
MaxOps = 6
NIds = 2
