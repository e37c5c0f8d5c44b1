CONSTANTS
 Clients = {"x","y","z"}
 Progs <- Progs3
 Inits <- Inits1
 Kws = {"a","b"}
 Vals <- V1
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 100
 Design <- CodeDesign
SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
