CONSTANTS RegClasses = {"A", "object", "function"}
 RegBases = {"b1", "!recover!", "pickle", "dict_item"}
 RegOpts = {"none", "custom", "unknown"}
 Kinds = {"data"}
 Memos = {TRUE}
 ExclBases = {"!node-reference!", "pickle", "b1"}
 Lists <- ListsA
 OptSets <- OnOffBad
 Procs <- NoProcs
 MaxLen = 3
 MaxFiles = 1
 Emit = TRUE
SPECIFICATION Spec
INVARIANT OffMeansOff
INVARIANT OnMeansOn
INVARIANT Inherited
INVARIANT GlobalApplies
INVARIANT CoreKept
INVARIANT SameLoader
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
