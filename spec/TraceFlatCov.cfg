CONSTANTS
  Start <- VStart
  Step <- VStep
SPECIFICATION Spec
