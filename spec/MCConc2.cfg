CONSTANTS
 Clients = {"x","y"}
 Progs <- Progs2
 Inits <- Inits2
 Kws = {"a","b"}
 Vals <- V3
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION FairSpec
INVARIANTS TypeOK SeedsUnique Linearizable NewOnce NoInvention Settled NoSpuriousFailure NoOrphans
PROPERTIES Termination
CHECK_DEADLOCK FALSE
