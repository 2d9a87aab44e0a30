CONSTANTS BL <- GeoShort
 Peers <- OnePeer
 Cap = 16
 Style = "all"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS AtMostCap
PROPERTIES OnlyRight Polite NothingForgotten Eager HonestCounts
CHECK_DEADLOCK FALSE
