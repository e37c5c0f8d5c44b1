SPECIFICATION Spec
INVARIANT SameView
CHECK_DEADLOCK FALSE
CONSTANTS
  K = {"a", "b"}
  REN <- Swap
  ITEMS <- All
  N = 3
  OPS <- Every
  FLIP = FALSE
  TYPES = FALSE
  LEAK = "none"
