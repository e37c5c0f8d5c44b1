CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsKR
 Inits <- IdxC
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3}
 KeyOf <- Key3
 MaxFaults = 1
 FaultKinds = {"fail","failafter","crash"}
 BatchSize = 3
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK NoInvention NoLoss
CHECK_DEADLOCK FALSE
