CONSTANTS RegClasses = {"A", "B"}
 RegBases = {"b1", "b2"}
 RegOpts = {"none", "custom"}
 Kinds = {"data", "group"}
 Memos = {TRUE}
 ExclBases = {"b1"}
 Lists <- ListsA
 OptSets <- OnOff
 Procs <- AnyProc
 MaxLen = 4
 MaxFiles = 2
 Emit = TRUE
SPECIFICATION Spec
INVARIANT OffMeansOff
INVARIANT OnMeansOn
INVARIANT Inherited
INVARIANT GlobalApplies
INVARIANT CoreKept
INVARIANT SameLoader
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
