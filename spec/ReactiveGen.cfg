SPECIFICATION Spec
CONSTANTS Eager = TRUE  MaxLevel = 3  Nodes = 9  Depth = 30  MaxSubs = 8  Profile = "mixed"
INVARIANT Good
CHECK_DEADLOCK FALSE
