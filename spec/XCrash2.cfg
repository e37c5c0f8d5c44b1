CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsC
 Inits <- Inits2
 Kws = {"a","b"}
 Vals <- V2
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 2
 FaultKinds = {"fail","failafter","crash"}
 BatchSize = 100
 Design <- CodeDesign
SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
