CONSTANTS
 N = 3
 Range = "all"
 MinDraws = 0
SPECIFICATION LSpec
INVARIANTS TypeOK
PROPERTIES Eventually
CHECK_DEADLOCK FALSE
