CONSTANTS
 Clients = {"x","y"}
 Progs <- Progs22
 Inits <- Inits1
 Kws = {"a"}
 Vals <- V1
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK SeedsUnique Linearizable NewOnce NoInvention Settled NoSpuriousFailure NoOrphans
CHECK_DEADLOCK FALSE
