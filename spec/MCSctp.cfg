INIT Init
NEXT Next
VIEW View
INVARIANTS Inv Completes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
MaxOps = 6
Mode = "hs"
