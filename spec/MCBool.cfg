CONSTANTS NC = 4 Pairs = 2000 FullN = 2
INIT Init
NEXT Next
INVARIANTS Agree Structure
CHECK_DEADLOCK FALSE
