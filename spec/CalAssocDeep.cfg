CONSTANTS MaxVars = 3 Vals = {1} MaxList = 3 Spacing = 1 Temps = 3 MaxOps = 8 OwnCodesOnly = TRUE FlushOnWrap = TRUE FlushOnQuit = TRUE
INIT Init
NEXT Next
INVARIANTS LastRight Sorted SameAssocs CutSafe
CHECK_DEADLOCK FALSE
