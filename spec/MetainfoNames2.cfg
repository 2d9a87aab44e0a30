CONSTANTS Deviations = 2
          PathDepth = 2
          Focus = "names"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NeverEscapes Consistent Whole
CHECK_DEADLOCK FALSE
