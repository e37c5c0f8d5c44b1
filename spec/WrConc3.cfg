CONSTANTS
 Clients = {"x","y","z"}
 Progs <- Progs3
 Inits <- Inits0
 Kws = {"a"}
 Vals <- V1
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION HSpec
INVARIANTS SafeA HistOK
PROPERTIES ImplA
CHECK_DEADLOCK FALSE
