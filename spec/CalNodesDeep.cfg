CONSTANTS NV = 3 MaxNodes = 14 MaxOps = 4 MaxRef = 2 FlushOnCollect = TRUE FlushOnQuit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANTS Ordered Reduced Canonical Faithful Remembered
CHECK_DEADLOCK FALSE
