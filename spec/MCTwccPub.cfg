CONSTANTS
 MaxSent = 3
 MaxLen = 3
 MaxOps = 5
INIT Init
NEXT Next
VIEW View
INVARIANTS Received Lost Dump
CHECK_DEADLOCK FALSE
