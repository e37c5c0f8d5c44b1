CONSTANTS
 Clients = {"x"}
 Progs <- ProgsL
 Inits <- Idx3
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3,4}
 KeyOf <- Key4
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design = {"cas","own-revert","insert-first","links-first"}
SPECIFICATION Spec
INVARIANTS IsolationOK
CHECK_DEADLOCK FALSE
