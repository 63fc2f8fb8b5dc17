CONSTANTS MaxNodes = 3
 MaxArity = 3
 Leaves <- Leaves2
 Conts <- Conts2
 KeyLeaves <- Keys2
 Faults = FALSE
 Emit = TRUE
 Dialects <- Both
SPECIFICATION LSpec
INVARIANT OldRoundTrip
INVARIANT OldNames
CHECK_DEADLOCK FALSE
