SPECIFICATION ChanSpec
CONSTANTS
 MaxOrphans = 10000
 Who <- W121
 Expect <- E210
 Md = 1
 MaxU = 1
 MaxDel = 1
 Attack = FALSE
 Cross = TRUE
 Emit = "no"
 Avoid = "kf+fail"
 Len1 = 0
VIEW ViewS
PROPERTY Refines
CHECK_DEADLOCK FALSE
