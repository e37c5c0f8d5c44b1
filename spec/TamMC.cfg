CONSTANTS
 Hists <- HistsT
 Programs <- ProgsT
 Kws = {"a","b"}
 Creds = {1,2,3}
 KeyOf <- Keys
 Powers = {"junk","alien","chain"}
 MaxAlter = 1
SPECIFICATION Spec
INVARIANTS NeverMisread Detected OthersKept FailsOnlyAltered
PROPERTIES FailsUnchanged NotReplaced
CHECK_DEADLOCK FALSE
