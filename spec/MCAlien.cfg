CONSTANTS
 Clients = {"x"}
 Progs <- ProgsL
 Inits <- Idx2
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3,4}
 KeyOf <- Key4
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 4
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK SeedsUnique NoInvention IsolationOK AlienOK
CHECK_DEADLOCK FALSE
