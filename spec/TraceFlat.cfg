CONSTANTS
  Start <- LStart
  Step <- LStep
SPECIFICATION Spec
