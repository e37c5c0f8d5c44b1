CONSTANTS
 Clients = {"x"}
 Progs <- Seq3
 Commons <- NoCommon
 Halves <- Two
 Kws = {"a","b"}
 Vals <- V
 Design = {"refuse"}
SPECIFICATION Spec
INVARIANTS UnionOK
CHECK_DEADLOCK FALSE
