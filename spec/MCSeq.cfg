CONSTANTS
 Clients = {"x"}
 Progs <- ProgsS
 Inits <- Inits2
 Kws = {"a","b"}
 Vals <- V2
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION Spec
INVARIANTS TypeOK SeedsUnique Linearizable NewOnce NoInvention Settled NoSpuriousFailure NoOrphans SeqExact
CHECK_DEADLOCK FALSE
