CONSTANTS
 Clients = {"x"}
 Progs <- Seq3
 Commons <- WithCommon
 Halves <- Two
 Kws = {"a","b"}
 Vals <- V
 Design = {"union","refuse"}
SPECIFICATION SpecApart
INVARIANTS RefusedIffDouble Kept UnionOK NoInvention NoCollision
PROPERTIES RefusedWritesNothing Termination
CHECK_DEADLOCK FALSE
