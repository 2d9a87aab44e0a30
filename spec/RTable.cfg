CONSTANTS W = 3
          K = 2
          Dead = 1
          Persist = 0
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT CapacityRespected
PROPERTIES LiveNeverDisplaced AtMostOneEvicted RoomMeansAdmitted RefusedOnlyWhenFull OnlySplitsWhenNeeded HeldStaysAtItsAddress FoundAreClosest SavedIsLoaded
CHECK_DEADLOCK FALSE
