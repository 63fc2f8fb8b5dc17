CONSTANTS MaxNodes = 12
 MaxArity = 4
 Leaves <- BLeaves
 Conts <- BConts
 KeyLeaves <- BKeys
 Faults = FALSE
 Emit = TRUE
 Dialects <- Both
SPECIFICATION LSimSpec
INVARIANT OldRoundTrip
INVARIANT OldNames
CHECK_DEADLOCK FALSE
