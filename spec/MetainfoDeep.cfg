CONSTANTS Deviations = 2
          PathDepth = 3
          Focus = "fields"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NeverEscapes Consistent Whole
CHECK_DEADLOCK FALSE
