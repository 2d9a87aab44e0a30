CONSTANTS N = 3
 Twins = FALSE
 Loaded <- OneNode
 Pool = 0
 Style = "search"
 MaxTime = 24
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Ends
PROPERTIES OnlyAwaited OnlyWithToken OneAnswer Apart NotTwice FewTold Used OnlyTokened
CHECK_DEADLOCK FALSE
