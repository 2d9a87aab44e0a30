CONSTANTS Layouts <- LayoutsBig
          Versions = {1, 2}
          Mode = "good"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OnlyThisPiece WrittenIsThere ReadIsLastWritten OnlyWritesWrite OutsideIsAnError
CHECK_DEADLOCK FALSE
