CONSTANTS
  Start <- PvStart
  Step <- PvStep
SPECIFICATION Spec
