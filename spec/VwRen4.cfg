SPECIFICATION Spec
INVARIANT SameView
CHECK_DEADLOCK FALSE
CONSTANTS
  K = {"a", "b"}
  REN <- Swap
  ITEMS <- Small
  N = 4
  OPS <- Every
  FLIP = FALSE
  TYPES = FALSE
  LEAK = "none"
