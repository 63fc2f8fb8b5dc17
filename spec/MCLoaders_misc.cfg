CONSTANTS RegClasses = {"L", "X"}
 RegBases = {"b1"}
 RegOpts = {"none", "custom"}
 Kinds = {"data", "unfit"}
 Memos = {TRUE, FALSE}
 ExclBases = {"pkP"}
 Lists <- ListsAL
 OptSets <- OnOff
 Procs <- AnyProc
 MaxLen = 4
 MaxFiles = 1
 Emit = TRUE
SPECIFICATION Spec
INVARIANT OffMeansOff
INVARIANT OnMeansOn
INVARIANT Inherited
INVARIANT GlobalApplies
INVARIANT CoreKept
INVARIANT SameLoader
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
