CONSTANTS Start <- GStart
          Step <- GStep
SPECIFICATION Spec
