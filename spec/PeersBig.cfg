CONSTANTS N = 4
          EnoughPeers = 128
          BadLists = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NoDoubleHandOut RediscoveryIsHarmless ListingIsPure BatchBounded BestFirst NothingForgotten
CHECK_DEADLOCK FALSE
