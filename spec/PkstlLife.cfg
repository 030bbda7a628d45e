CONSTANTS
  MaxOrphans = 3
  Emit = "edges"
  Erase = TRUE
  Places = {1, 2, 3}
SPECIFICATION Spec
VIEW ViewL
ACTION_CONSTRAINT EmitEdge
INVARIANTS Type InvErase InvLast
PROPERTIES InvAlone
CHECK_DEADLOCK FALSE
