CONSTANTS N = 2
          EnoughPeers = 128
          BadLists = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NoDoubleHandOut RediscoveryIsHarmless ListingIsPure BatchBounded BestFirst NothingForgotten
CHECK_DEADLOCK FALSE
