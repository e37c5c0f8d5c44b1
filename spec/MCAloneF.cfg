CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsLCF
 Inits <- Idx3
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3,4}
 KeyOf <- Key4
 MaxFaults = 1
 FaultKinds = {"fail","failafter","crash","crashafter"}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK SeedsUnique NoInvention AloneOK
CHECK_DEADLOCK FALSE
