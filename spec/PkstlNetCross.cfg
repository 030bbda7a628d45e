SPECIFICATION Spec
CONSTANTS
 MaxOrphans = 10000
 Who <- W12
 Expect <- E00
 Md = 1
 MaxU = 1
 MaxDel = 1
 Attack = FALSE
 Cross = TRUE
 Emit = "edges"
 Avoid = "kf+fail"
 Len1 = 0
VIEW ViewS
INVARIANTS Type InvC01 InvC03 InvAgree InvC08 InvC12 InvC12id InvC21 InvSecret InvC21b InvKF InvC05 AllDone
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
