CONSTANTS
 Variant = "ok"
 NThreads = 3
 Size = 0
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Correct Clean
CHECK_DEADLOCK TRUE
