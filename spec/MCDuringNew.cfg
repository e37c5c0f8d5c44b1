CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsKN
 Inits <- IdxC
 Kws = {"a","b","c"}
 Vals <- ValsW
 Creds = {1,2,3}
 KeyOf <- Key3
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 3
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS NoLostUpdateElse NoLostDelete SearchesNeverFail
CHECK_DEADLOCK FALSE
