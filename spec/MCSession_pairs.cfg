SPECIFICATION PairSpec
CONSTANTS Paths <- PairPaths
 Disk = {"f1", "f2"}
 Mem = {"m1"}
 Depth = 10
INVARIANTS EmitPair
CHECK_DEADLOCK FALSE
