SPECIFICATION Spec
CONSTANTS CPaths <- CPBig
 MaxNodes = 3
 MaxDumps = 4
 MarkFirst = FALSE
 Wipe = FALSE
INVARIANTS Refines NeverPartial Others AfterDeath
PROPERTY Outcome
CHECK_DEADLOCK FALSE
