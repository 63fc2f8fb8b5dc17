CONSTANTS MaxNodes = 4
 MaxArity = 2
 Leaves <- MixLeavesBig
 Conts <- MixConts
 KeyLeaves <- NoKeys
 Faults = TRUE
 Emit = TRUE
SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT NoPartialLoad
INVARIANT WellFormed
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
