CONSTANTS MaxNodes = 4
 MaxArity = 2
 Leaves <- Leaves1
 Conts <- Conts1
 KeyLeaves <- Keys1
 Faults = FALSE
 Emit = TRUE
 Dialects <- Both
SPECIFICATION LSpec
INVARIANT OldRoundTrip
INVARIANT OldNames
CHECK_DEADLOCK FALSE
