SPECIFICATION SimSpec
CONSTANTS Paths <- MCPaths
 Disk = {"f1", "f2"}
 Mem = {"m1"}
 Depth = 10
INVARIANTS Emit
CHECK_DEADLOCK FALSE
