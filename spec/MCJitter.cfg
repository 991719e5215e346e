CONSTANTS
 MaxOps = 6
 Stream = "mixed"
 Late = 3
 Step = 5
INIT Init
NEXT Next
VIEW View
INVARIANTS Complete Ordered OnceOnly NackOnce NackRight NotEarly NeverStuck Dump
CHECK_DEADLOCK FALSE
