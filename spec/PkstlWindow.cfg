SPECIFICATION Spec
CONSTANTS
 MaxOrphans = 3
 MaxN = 6
 Steps = {1, 2, 3}
 MaxLen = 4
INVARIANTS SameOutcome SameState Window Bounded
CHECK_DEADLOCK FALSE
