CONSTANTS BL <- GeoOdd
          Peers = {0, 1}
          Dead = 1
          MaxPieces = 10
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NeverStuckComplete LimitKept
PROPERTIES OneAtATime BudgetKept BudgetUsed CompleteOnlyWhenAllReceived RefusedChangesNothing ReceivedIsKept
CHECK_DEADLOCK FALSE
