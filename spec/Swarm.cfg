CONSTANTS Peers <- TwoPeers
 Pool <- OnePeer
 NP = 2
 Slots = 10
 Active = 9
 Load = 4
 Share = 3
 Style = "plain"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS PeerLimit PieceLimit
PROPERTIES OnlyUseful OnlyRight Replaced Served
CHECK_DEADLOCK FALSE
