CONSTANTS MaxNodes = 3
 MaxArity = 2
 Leaves <- SetLeaves
 Conts <- SetConts
 KeyLeaves <- NoKeys
 Faults = TRUE
 Emit = TRUE
SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT NoPartialLoad
INVARIANT WellFormed
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
