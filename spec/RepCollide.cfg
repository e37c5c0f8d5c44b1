CONSTANTS
 Clients = {"x"}
 Progs <- Seq3
 Commons <- WithCommon
 Halves <- Two
 Kws = {"a","b"}
 Vals <- V
 Design = {"union","refuse"}
SPECIFICATION Spec
INVARIANTS UnionOK
CHECK_DEADLOCK FALSE
