SPECIFICATION Spec
CONSTANTS MaxOrphans = 10000
 MaxN = 3
 MaxSent = 2
 Modes = {0, 1}
 Pins = {0, 2}
 Focus = "window"
 MaxStk = 2
 Emit = TRUE
VIEW ViewH
ACTION_CONSTRAINT EmitEdge
CONSTRAINT Bound
INVARIANTS Type
CHECK_DEADLOCK FALSE
