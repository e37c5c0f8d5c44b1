CONSTANTS
 Clients = {"x"}
 Progs <- ProgsKF
 Inits <- IdxC
 Kws = {"a","b"}
 Vals <- ValsC
 Creds = {1,2,3}
 KeyOf <- Key3
 MaxFaults = 1
 FaultKinds = {"fail","failafter","crash"}
 BatchSize = 100
 Design <- CodeDesign
SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
