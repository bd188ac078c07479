INIT Init
NEXT Next
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
