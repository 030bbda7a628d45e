CONSTANTS
  MaxOrphans = 3
  Emit = "edges"
  Strict = TRUE
SPECIFICATION Spec
VIEW ViewC
ACTION_CONSTRAINT EmitEdge
INVARIANTS Type InvC16 InvC17 InvAlive
PROPERTIES InvC18
CHECK_DEADLOCK FALSE
