CONSTANTS
  Start <- SmStart
  Step <- SmStep
SPECIFICATION Spec
