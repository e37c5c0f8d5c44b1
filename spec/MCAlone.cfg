CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsLC
 Inits <- Idx3
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3,4}
 KeyOf <- Key4
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK SeedsUnique NoInvention AloneOK
CHECK_DEADLOCK FALSE
