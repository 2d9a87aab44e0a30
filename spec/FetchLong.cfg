CONSTANTS BL <- GeoLong
 Peers <- OnePeer
 Cap = 16
 Style = "ends"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS AtMostCap
PROPERTIES OnlyRight Polite NothingForgotten Eager HonestCounts
CHECK_DEADLOCK FALSE
