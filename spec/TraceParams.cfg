CONSTANTS
  Start <- PmStart
  Step <- PmStep
SPECIFICATION Spec
