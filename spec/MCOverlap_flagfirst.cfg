CONSTANTS
 Variant = "flagfirst"
 NThreads = 2
 Size = 0
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Correct Clean
CHECK_DEADLOCK TRUE
