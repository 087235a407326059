CONSTANTS Start <- SStart
          Step <- SStep
SPECIFICATION Spec
