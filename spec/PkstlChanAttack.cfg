SPECIFICATION ChanSpec
CONSTANTS
 MaxOrphans = 10000
 Who <- W12
 Expect <- E20
 Md = 1
 MaxU = 1
 MaxDel = 1
 Attack = TRUE
 Cross = TRUE
 Emit = "no"
 Avoid = "kf+fail"
 Len1 = 0
VIEW ViewS
PROPERTY Refines
CHECK_DEADLOCK FALSE
