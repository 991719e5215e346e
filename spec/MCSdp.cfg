CONSTANTS
 MaxMedia = 2
 Menu = {1, 2, 3, 4, 5}
 Sets = {1, 2, 3}
 Flaws = {"none"}
 Rich = FALSE
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
