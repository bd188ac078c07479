CONSTANTS Places = {1,2,3,4,5} Values = {1,2,3} Slots = {1,2} MaxReq = 2 MaxOps = 8 LockResults = TRUE FixPending = TRUE FixExecuted = TRUE
INIT Init
NEXT Next
INVARIANTS HeldKept Promises Canonical Counts
CHECK_DEADLOCK FALSE
