CONSTANTS MaxNodes = 3
 MaxArity = 3
 Leaves <- FLeaves
 Conts <- FConts
 KeyLeaves <- FKeys
 Faults = FALSE
 Emit = TRUE
 Damages = FALSE
SPECIFICATION FSpec
INVARIANT AnyOrder
INVARIANT NoPartialLoad
INVARIANT Refused
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
