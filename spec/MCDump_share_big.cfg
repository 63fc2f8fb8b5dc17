CONSTANTS MaxNodes = 5
 MaxArity = 2
 Leaves <- ShareLeaves1
 Conts <- ShareConts
 KeyLeaves <- NoKeys
 Faults = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT NoPartialLoad
INVARIANT WellFormed
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
