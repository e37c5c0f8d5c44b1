CONSTANTS
 Hists <- HistsT
 Programs <- ProgsT
 Kws = {"a","b"}
 Creds = {1,2,3}
 KeyOf <- Keys
 Powers = {"swap"}
 MaxAlter = 1
SPECIFICATION Spec
INVARIANTS NeverMisread
CHECK_DEADLOCK FALSE
