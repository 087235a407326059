CONSTANTS Start <- CStart  Step <- CStep
SPECIFICATION Spec
