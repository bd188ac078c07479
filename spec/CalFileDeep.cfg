CONSTANTS N = 3 Sources = "all" Orders = "all" Pads = {0, 1, 4, 5, 6} Radix = 8 NodeRadix = 2 Hostile = FALSE MaxDigits = 0 MaxDecl = 0 ConstSize = 2 Keep = FALSE CheckIndex = TRUE CheckNumber = TRUE CheckLabels = TRUE CheckDepth = TRUE WidthPlusOne = TRUE
SPECIFICATION Spec
INVARIANTS NoCrash Bounded LabelsFit RoundTrip Complete
PROPERTIES Ends
CHECK_DEADLOCK FALSE
