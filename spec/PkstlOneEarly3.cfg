SPECIFICATION Spec
CONSTANTS MaxOrphans = 10000
 MaxN = 2
 MaxSent = 0
 Modes = {0, 1}
 Pins = {0, 2}
 Focus = "early"
 MaxStk = 3
 Emit = TRUE
VIEW ViewH
ACTION_CONSTRAINT EmitEdge
CONSTRAINT Bound
INVARIANTS Type
CHECK_DEADLOCK FALSE
