CONSTANTS Scripts <- ProperPairs
 SendMsgs <- SomeMsgs
 Closings = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OneReport ReportIsLast SilentWhenOver OnlyAfterHandshake
CHECK_DEADLOCK FALSE
