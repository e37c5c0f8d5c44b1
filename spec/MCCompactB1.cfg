CONSTANTS
 Clients = {"x"}
 Progs <- ProgsK
 Inits <- IdxC
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3}
 KeyOf <- Key3
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 1
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK SeedsUnique NoInvention CompactOK NoOrphans
CHECK_DEADLOCK FALSE
