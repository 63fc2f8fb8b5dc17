CONSTANTS MaxNodes = 8
 MaxArity = 3
 Leaves <- BLeaves
 Conts <- BConts
 KeyLeaves <- BKeys
 Faults = FALSE
 Emit = TRUE
 Damages = TRUE
SPECIFICATION FSimSpec
INVARIANT AnyOrder
INVARIANT NoPartialLoad
INVARIANT Refused
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
