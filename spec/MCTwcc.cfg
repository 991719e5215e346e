CONSTANTS
 Numbers = {100, 101, 102, 104}
 Gaps = {30, 100}
 MaxOps = 6
INIT Init
NEXT Next
VIEW View
INVARIANTS Right Fresh AllTold Dump
CHECK_DEADLOCK FALSE
