SPECIFICATION Spec
CONSTANTS CPaths <- CP
 MaxNodes = 3
 MaxDumps = 3
 MarkFirst = FALSE
 Wipe = FALSE
INVARIANTS Refines NeverPartial Others AfterDeath
PROPERTY Outcome
CHECK_DEADLOCK FALSE
