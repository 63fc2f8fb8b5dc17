SPECIFICATION Spec
CONSTANTS Paths <- JPaths
 Disk = {"f1", "f2"}
 Mem = {"m1"}
INVARIANT Done
CHECK_DEADLOCK FALSE
