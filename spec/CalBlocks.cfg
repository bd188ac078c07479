CONSTANTS MaxVars = 4 MaxBlocks = 2
INIT Init
NEXT Next
INVARIANTS Tree Declared UnitsAgree
CHECK_DEADLOCK FALSE
