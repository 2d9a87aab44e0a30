CONSTANTS Deviations = 2
          PathDepth = 1
          Focus = "names"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NeverEscapes Consistent Whole
CHECK_DEADLOCK FALSE
