SPECIFICATION Spec
CONSTANTS Paths <- SmallPaths
 Disk = {"f1"}
 Mem = {"m1"}
 Depth = 4
INVARIANTS Labels Known
PROPERTIES Independent NeverLost WOnly XKeeps RMissing LoadPure
VIEW View
CHECK_DEADLOCK FALSE
