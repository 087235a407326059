CONSTANTS
  Start <- AStart
  Step <- AStep
SPECIFICATION Spec
