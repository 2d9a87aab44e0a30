CONSTANTS N = 3
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS WaitIsExact AllTold NobodyToldEarly
CHECK_DEADLOCK FALSE
