SPECIFICATION Spec
CONSTANTS
 Shapes <- S1
 Caps = {0, 1, 64, 100, 8192}
 Pres = {0, 5}
 Depth = 3
 Whole = TRUE
 Emit = TRUE
INVARIANTS Success Failure Prefix EmitScript
PROPERTY Ends
CHECK_DEADLOCK FALSE
