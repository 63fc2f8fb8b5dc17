CONSTANTS MaxNodes = 4
 MaxArity = 2
 Leaves <- RLeaves
 Conts <- RConts
 KeyLeaves <- RKeys
 Faults = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANT NothingLost
INVARIANT Unneeded
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
