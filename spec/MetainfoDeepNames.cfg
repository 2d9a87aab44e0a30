CONSTANTS Deviations = 1
          PathDepth = 4
          Focus = "names"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NeverEscapes Consistent Whole
CHECK_DEADLOCK FALSE
