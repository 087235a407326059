CONSTANTS Start <- FStart
          Step <- FStep
SPECIFICATION Spec
