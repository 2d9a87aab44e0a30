CONSTANTS Lens <- LensDef
          Bytes <- BytesDef
          MaxBytes = 2
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InRange
PROPERTIES OnlyThatPiece RefusedChangesNothing
CHECK_DEADLOCK FALSE
