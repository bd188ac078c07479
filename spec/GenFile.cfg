CONSTANTS N = 4 Sources = "all" Orders = "some" Pads = {0} Radix = 256 NodeRadix = 256 Hostile = TRUE MaxDigits = 60 MaxDecl = 6 ConstSize = 16 Keep = TRUE CheckIndex = TRUE CheckNumber = TRUE CheckLabels = TRUE CheckDepth = TRUE WidthPlusOne = TRUE
CONSTANTS Choices <- Short MayEnd <- Ends_k
INIT GInit
NEXT GNext
VIEW GView
CHECK_DEADLOCK FALSE
