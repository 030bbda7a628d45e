SPECIFICATION SpecDead
CONSTANTS MaxOrphans = 1
 MaxN = 2
 MaxSent = 1
 Modes = {0, 1}
 Pins = {0, 2}
 Focus = "all"
 MaxStk = 1
 Emit = FALSE
VIEW ViewG
CONSTRAINT Bound
INVARIANTS Type InvC01 InvC03 InvC04 InvC08 InvC10 InvC12 InvC20 InvC21
PROPERTIES Dead NoTrace Adopt
CHECK_DEADLOCK FALSE
