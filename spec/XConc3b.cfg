CONSTANTS
 Clients = {"x","y","z"}
 Progs <- Progs3b
 Inits <- Inits2
 Kws = {"a","b"}
 Vals <- V2
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 100
 Design <- CodeDesign
SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
