CONSTANTS NC = 6 Pairs = 300 FullN = 1
INIT Init
NEXT Next
INVARIANTS Agree Structure
CHECK_DEADLOCK FALSE
