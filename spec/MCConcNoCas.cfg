CONSTANTS
 Clients = {"x","y"}
 Progs <- Progs2
 Inits <- Inits2
 Kws = {"a","b"}
 Vals <- V3
 Creds = {1}
 KeyOf <- Key1
 MaxFaults = 0
 FaultKinds = {}
 BatchSize = 2
 Design = {"own-revert","label-check","insert-first","links-first"}
SPECIFICATION Spec
INVARIANTS NewOnce
CHECK_DEADLOCK FALSE
