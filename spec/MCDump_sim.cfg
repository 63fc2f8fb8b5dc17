CONSTANTS MaxNodes = 14
 MaxArity = 4
 Leaves <- MixLeaves
 Conts <- SimConts
 KeyLeaves <- SimKeys
 Faults = FALSE
 Emit = TRUE
SPECIFICATION SimSpec
INVARIANT RoundTrip
INVARIANT NoPartialLoad
INVARIANT WellFormed
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
