CONSTANTS MaxVars = 4 MaxBlocks = 3
INIT Init
NEXT Next
INVARIANTS Tree Declared UnitsAgree
CHECK_DEADLOCK FALSE
