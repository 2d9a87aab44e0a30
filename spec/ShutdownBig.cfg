CONSTANTS N = 4
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS WaitIsExact AllTold NobodyToldEarly
CHECK_DEADLOCK FALSE
