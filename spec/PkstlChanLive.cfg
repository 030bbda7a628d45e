SPECIFICATION LiveSpec
CONSTANTS
 MaxOrphans = 10000
 Who <- W12
 Expect <- E00
 Md = 1
 MaxU = 2
 MaxDel = 1
 Attack = FALSE
 Cross = FALSE
 Emit = "no"
 Avoid = "fail"
 Len1 = 0

PROPERTY Refines Live
CHECK_DEADLOCK FALSE
