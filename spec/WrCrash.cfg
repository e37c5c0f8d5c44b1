CONSTANTS
 Clients = {"x","y"}
 Progs <- ProgsC
 Inits <- Inits0
 Kws = {"a","b"}
 Vals <- V2
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 1
 FaultKinds = {"fail","failafter","crash"}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION HSpec
INVARIANTS SafeA HistOK
PROPERTIES ImplA ImplB
CHECK_DEADLOCK FALSE
