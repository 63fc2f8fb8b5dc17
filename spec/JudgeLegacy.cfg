CONSTANTS MaxNodes = 0
 MaxArity = 0
 Leaves = {}
 Conts = {}
 KeyLeaves = {}
 Faults = FALSE
 Emit = FALSE
 Dialects = {}
SPECIFICATION JSpec
INVARIANT Done
CHECK_DEADLOCK FALSE
