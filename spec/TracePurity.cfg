CONSTANTS Start <- PStart
          Step <- PStep
SPECIFICATION Spec
