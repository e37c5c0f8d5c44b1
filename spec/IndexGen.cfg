CONSTANTS
 Kws = {"a","b","c","e"}
 Data = {"1","2","3","4"}
 NCreds = 4
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
