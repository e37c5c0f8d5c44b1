CONSTANTS
 BL = 2
 W = 2
 MaxLen = 4
 MaxOps = 3
SPECIFICATION Spec
INVARIANTS RoundTrip Lines Appendable
CHECK_DEADLOCK FALSE
