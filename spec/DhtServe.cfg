CONSTANTS N = 3
 Twins = TRUE
 Loaded <- OneNode
 Pool = 1
 Style = "serve"
 MaxTime = 0
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Ends
PROPERTIES OnlyAwaited OnlyWithToken OneAnswer Apart NotTwice
CHECK_DEADLOCK FALSE
