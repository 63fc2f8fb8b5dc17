CONSTANTS
 Variant = "ok"
 NThreads = 2
 Size = 0
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Correct Clean
PROPERTIES Terminates
CHECK_DEADLOCK TRUE
