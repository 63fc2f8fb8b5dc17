CONSTANTS
 Variant = "ok"
 NThreads = 2
 Size = 1
 Emit = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
