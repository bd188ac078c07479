CONSTANTS N = 2 Sources = "all" Orders = "all" Pads = {0} Radix = 4 NodeRadix = 2 Hostile = TRUE MaxDigits = 13 MaxDecl = 3 ConstSize = 2 Keep = FALSE CheckIndex = TRUE CheckNumber = TRUE CheckLabels = TRUE CheckDepth = TRUE WidthPlusOne = TRUE
SPECIFICATION Spec
INVARIANTS NoCrash Bounded LabelsFit RoundTrip Complete
PROPERTIES Ends
CHECK_DEADLOCK FALSE
