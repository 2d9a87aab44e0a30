CONSTANTS N = 2
 Twins = FALSE
 Loaded <- OneNode
 Pool = 1
 Style = "malformed"
 MaxTime = 20
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Ends
PROPERTIES NotTwice
CHECK_DEADLOCK FALSE
