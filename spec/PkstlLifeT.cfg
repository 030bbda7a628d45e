CONSTANTS
  MaxOrphans = 3
  Emit = "none"
  Erase = TRUE
  Places = {1, 2, 3, 4}
SPECIFICATION Spec
VIEW ViewL
INVARIANTS Type InvErase InvLast
PROPERTIES InvAlone
CHECK_DEADLOCK FALSE
