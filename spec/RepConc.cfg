CONSTANTS
 Clients = {"x","y"}
 Progs <- Conc
 Commons <- NoCommon
 Halves <- Two
 Kws = {"a","b"}
 Vals <- V
 Design = {"union","refuse"}
SPECIFICATION FairSpec
INVARIANTS RefusedIffDouble Kept NoInvention NoCollision
PROPERTIES RefusedWritesNothing Termination
CHECK_DEADLOCK FALSE
