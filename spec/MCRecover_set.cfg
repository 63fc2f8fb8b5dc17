CONSTANTS MaxNodes = 3
 MaxArity = 2
 Leaves <- SLeaves
 Conts <- SConts
 KeyLeaves <- None
 Faults = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANT NothingLost
INVARIANT Unneeded
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
