CONSTANTS RegClasses = {"A", "B", "Y", "L", "list", "dict", "X", "V"}
 RegBases = {"b1", "b2", "!recover!", "dict_item"}
 RegOpts = {"none", "custom"}
 Kinds = {"data", "group", "unfit"}
 Memos = {TRUE, FALSE}
 ExclBases = {"b1", "b2", "pkP", "pkQ"}
 Lists <- ListsAll
 OptSets <- OnOffBad
 Procs <- AnyProc
 MaxLen = 12
 MaxFiles = 4
 Emit = TRUE
SPECIFICATION SimSpec
INVARIANT OffMeansOff
INVARIANT OnMeansOn
INVARIANT Inherited
INVARIANT GlobalApplies
INVARIANT CoreKept
INVARIANT SameLoader
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
