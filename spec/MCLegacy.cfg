CONSTANTS MaxNodes = 3
 MaxArity = 3
 Leaves <- Leaves1
 Conts <- Conts1
 KeyLeaves <- Keys1
 Faults = FALSE
 Emit = TRUE
 Dialects <- Both
SPECIFICATION LSpec
INVARIANT OldRoundTrip
INVARIANT OldNames
CHECK_DEADLOCK FALSE
