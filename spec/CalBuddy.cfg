CONSTANTS
  MinAlloc = 3
  MaxTotal = 40
  Ids = {1, 2, 3}
  Sizes = {1, 2, 3, 7}
  MaxOps = 6
  NoBlock = NoBlock
INIT Init
NEXT Next
VIEW View
INVARIANTS Tiling Aligned Merged Known Segments
CHECK_DEADLOCK FALSE
