CONSTANTS
 Toks = {"t1","t2","t3"}
 Vals = {"v1","v2"}
SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Contract
VIEW View
CHECK_DEADLOCK FALSE
