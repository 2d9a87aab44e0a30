CONSTANTS N = 1
 Refusing <- NoTrackers
 Pieces = 2
 Style = "session"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Waits
PROPERTIES StartedFirst OneStop NothingAfter Told PoolGrows LatestId Apart
CHECK_DEADLOCK FALSE
