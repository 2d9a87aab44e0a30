CONSTANTS Scripts <- ProperStreams
 SendMsgs <- NoMsgs
 Closings = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OneReport ReportIsLast SilentWhenOver OnlyAfterHandshake
CHECK_DEADLOCK FALSE
