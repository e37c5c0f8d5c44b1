CONSTANTS
 N = 5
 Range = "all"
 MinDraws = 1
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES Eventually Monotone
CHECK_DEADLOCK FALSE
