CONSTANTS MaxNodes = 4
 MaxArity = 2
 Leaves <- SetLeaves
 Conts <- SetConts
 KeyLeaves <- NoKeys
 Faults = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT NoPartialLoad
INVARIANT WellFormed
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
