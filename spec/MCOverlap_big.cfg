CONSTANTS
 Variant = "ok"
 NThreads = 2
 Size = 1
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Correct Clean
PROPERTIES Terminates
CHECK_DEADLOCK TRUE
