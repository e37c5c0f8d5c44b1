CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsKS
 Inits <- IdxC
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3}
 KeyOf <- Key3
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 3
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK NoInvention SearchesNeverFail
CHECK_DEADLOCK FALSE
