CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsW
 Inits <- Inits2
 Kws = {"a","b"}
 Vals <- V3
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 100
 Design <- CodeDesign
SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
