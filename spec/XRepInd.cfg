CONSTANTS
 Clients = {"x"}
 Progs <- Seq3
 Commons <- NoCommon
 Halves <- Two
 Kws = {"a","b"}
 Vals <- V
 Design = {"union","refuse"}
SPECIFICATION ESpec

CHECK_DEADLOCK FALSE
