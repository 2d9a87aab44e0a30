CONSTANTS Peers <- TwoPeers
 Floods = 450
 MaxQ = 3
 Replies <- OneReply
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS DeadIsReported AliveIsNot QueuedOnlyDialling
PROPERTIES ReportMeansEnd OthersUntouched SecondConnectIsNone
CHECK_DEADLOCK FALSE
