CONSTANTS MaxNodes = 4
 MaxArity = 2
 Leaves <- KeyVals
 Conts <- DictOnly
 KeyLeaves <- KeyLeavesAll
 Faults = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT NoPartialLoad
INVARIANT WellFormed
INVARIANT WrittenOnce
CHECK_DEADLOCK FALSE
