CONSTANTS MaxNodes = 3
 MaxArity = 2
 Leaves <- DLeaves
 Conts <- DConts
 KeyLeaves <- FKeys
 Faults = FALSE
 Emit = TRUE
 Damages = TRUE
SPECIFICATION FSpec
INVARIANT AnyOrder
INVARIANT NoPartialLoad
INVARIANT Refused
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
