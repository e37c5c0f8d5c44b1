CONSTANTS
 Clients = {"x"}
 Progs <- ProgsG1
 Inits <- Graphs
 Kws = {"a","b","c"}
 Vals <- GraphVals
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design <- CodeDesign
SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
