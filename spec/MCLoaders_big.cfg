CONSTANTS RegClasses = {"A", "B", "Z"}
 RegBases = {"b1"}
 RegOpts = {"none", "custom"}
 Kinds = {"data", "group"}
 Memos = {TRUE}
 ExclBases = {"b1"}
 Lists <- ListsA
 OptSets <- OnOff
 Procs <- NoProcs
 MaxLen = 5
 MaxFiles = 1
 Emit = TRUE
SPECIFICATION Spec
INVARIANT OffMeansOff
INVARIANT OnMeansOn
INVARIANT Inherited
INVARIANT GlobalApplies
INVARIANT CoreKept
INVARIANT SameLoader
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
