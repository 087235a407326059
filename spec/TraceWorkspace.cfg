CONSTANTS Start <- WStart  Step <- WStep
SPECIFICATION Spec
