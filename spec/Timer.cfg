CONSTANTS Growth <- GrowthDef
          Waits <- WaitsDef
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NotPostponed NeverLate NotEarly
CHECK_DEADLOCK FALSE
