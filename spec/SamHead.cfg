CONSTANTS
 N = 3
 Range = "head"
 MinDraws = 1
SPECIFICATION LSpec
INVARIANTS TypeOK
PROPERTIES Eventually
CHECK_DEADLOCK FALSE
