CONSTANTS Layouts <- LayoutsFault
          Versions = {1, 2}
          Mode = "faults"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OnlyThisPiece WrittenIsThere ReadIsLastWritten OnlyWritesWrite OutsideIsAnError FailureIsReported
CHECK_DEADLOCK FALSE
