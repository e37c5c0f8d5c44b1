SPECIFICATION Spec
INVARIANT SameView
CHECK_DEADLOCK FALSE
CONSTANTS
  K = {"a", "b"}
  REN <- Swap
  ITEMS <- Data
  N = 2
  OPS <- ModsSearch
  FLIP = TRUE
  TYPES = FALSE
  LEAK = "delshort"
