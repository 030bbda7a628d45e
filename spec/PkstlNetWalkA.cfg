SPECIFICATION Spec
CONSTANTS
 MaxOrphans = 10000
 Who <- W12
 Expect <- E00
 Md = 1
 MaxU = 2
 MaxDel = 2
 Attack = TRUE
 Cross = TRUE
 Emit = "walks"
 Avoid = "kf+fail"
 Len1 = 34
VIEW ViewS
INVARIANTS Type InvC01 InvC03 InvAgree InvC08 InvC12 InvC12id InvC21 InvSecret InvC21b InvKF InvC05 AllDone
INVARIANT EmitWalk
CHECK_DEADLOCK FALSE
