SPECIFICATION Spec
CONSTANTS
 MaxOrphans = 4
 MaxN = 8
 Steps = {1, 2, 3}
 MaxLen = 5
INVARIANTS SameOutcome SameState Window Bounded
CHECK_DEADLOCK FALSE
