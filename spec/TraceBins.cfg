CONSTANTS Start <- BStart
          Step <- BStep
SPECIFICATION Spec
