SPECIFICATION Spec
CONSTANTS
 MaxOrphans = 10000
 Who <- W12
 Expect <- E20
 Md = 1
 MaxU = 1
 MaxDel = 2
 Attack = FALSE
 Cross = FALSE
 Emit = "no"
 Avoid = "fail"
 Len1 = 0
VIEW ViewS
INVARIANTS Type InvC01 InvC03 InvAgree InvC08 InvC12 InvC12id InvC21 InvSecret InvC21b InvKF InvC05 AllDone
CHECK_DEADLOCK FALSE
