CONSTANTS MaxNodes = 9
 MaxArity = 3
 Leaves <- BLeaves
 Conts <- BConts
 KeyLeaves <- RKeys
 Faults = FALSE
 Emit = TRUE
SPECIFICATION SimSpec
INVARIANT NothingLost
INVARIANT Unneeded
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
