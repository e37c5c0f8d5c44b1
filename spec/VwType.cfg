SPECIFICATION Spec
INVARIANT SameView
CHECK_DEADLOCK FALSE
CONSTANTS
  K = {"a", "b"}
  REN <- Id
  ITEMS <- One
  N = 2
  OPS <- Mods
  FLIP = TRUE
  TYPES = TRUE
  LEAK = "none"
