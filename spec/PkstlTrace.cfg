SPECIFICATION TraceSpec
CONSTANT MaxOrphans = 10000
INVARIANT StatesOK
VIEW View
CHECK_DEADLOCK FALSE
