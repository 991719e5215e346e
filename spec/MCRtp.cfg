CONSTANTS
 Lens = {0, 2, 3}
 Csrcs = {0, 2}
 Pads = {0, 1, 4}
 Payloads = {0, 5}
 Cuts = {0, 1, 2, 6, 11}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
