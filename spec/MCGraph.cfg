CONSTANTS
 Clients = {"x"}
 Progs <- ProgsG
 Inits <- Graphs
 Kws = {"a","b","c"}
 Vals <- GraphVals
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION FairSpec
INVARIANTS TypeOK NoSpuriousFailure GraphOK
PROPERTIES Termination
CHECK_DEADLOCK FALSE
