INIT Init
NEXT Next
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
