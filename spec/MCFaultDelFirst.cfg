CONSTANTS
 Clients = {"x"}
 Progs <- ProgsK
 Inits <- IdxC
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3}
 KeyOf <- Key3
 MaxFaults = 1
 FaultKinds = {"fail","failafter","crash"}
 BatchSize = 3
 Design = {"cas","own-revert","label-check","links-first"}
SPECIFICATION Spec
INVARIANTS Recoverable
CHECK_DEADLOCK FALSE
