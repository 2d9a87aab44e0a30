CONSTANTS N = 2
 Twins = FALSE
 Loaded <- OneNode
 Pool = 1
 Style = "match"
 MaxTime = 16
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Ends
PROPERTIES OnlyAwaited OnlyWithToken OneAnswer Apart NotTwice Used OnlyTokened
CHECK_DEADLOCK FALSE
