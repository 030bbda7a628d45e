SPECIFICATION Spec
CONSTANTS MaxOrphans = 10000
 MaxN = 0
 MaxSent = 1
 Modes = {0, 1}
 Pins = {0, 2}
 Focus = "nego"
 MaxStk = 1
 Emit = TRUE
VIEW ViewH
ACTION_CONSTRAINT EmitEdge
CONSTRAINT Bound
INVARIANTS Type
CHECK_DEADLOCK FALSE
