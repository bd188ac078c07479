CONSTANTS NV = 2 MaxNodes = 8 MaxOps = 3 MaxRef = 2 FlushOnCollect = TRUE FlushOnQuit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANTS Ordered Reduced Canonical Faithful Remembered
CHECK_DEADLOCK FALSE
