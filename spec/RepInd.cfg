CONSTANTS
 Clients = {"x"}
 Progs <- Seq3
 Commons <- NoCommon
 Halves <- Two
 Kws = {"a","b"}
 Vals <- V
 Design = {"union","refuse"}
SPECIFICATION FairSpec
INVARIANTS RefusedIffDouble Kept UnionOK NoInvention NoCollision
PROPERTIES RefusedWritesNothing Termination
CHECK_DEADLOCK FALSE
