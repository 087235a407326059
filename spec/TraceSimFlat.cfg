CONSTANTS
  Start <- SfStart
  Step <- SfStep
SPECIFICATION Spec
