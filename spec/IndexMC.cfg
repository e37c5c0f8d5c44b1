CONSTANTS
 Kws = {"a","b"}
 Data = {"1"}
 NCreds = 2
SPECIFICATION ISpec
INVARIANTS EntryOfContent SearchSound
PROPERTIES Isolation CompactPreserves
CHECK_DEADLOCK FALSE
