CONSTANTS Scripts <- RoughPairs
 SendMsgs <- SomeMsgs
 Closings = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OneReport ReportIsLast SilentWhenOver OnlyAfterHandshake
CHECK_DEADLOCK FALSE
