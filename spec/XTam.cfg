CONSTANTS
 Hists <- HistsT
 Programs <- ProgsT
 Kws = {"a","b"}
 Creds = {1,2,3}
 KeyOf <- Keys
 Powers = {"junk","alien","chain"}
 MaxAlter = 1
SPECIFICATION ESpec

CHECK_DEADLOCK FALSE
