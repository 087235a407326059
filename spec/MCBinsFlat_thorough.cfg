CONSTANTS Top = 7
          MaxBands = 3
          MaxReq = 4
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS LayoutsOrdered OnlyTheMultipole CursorInRange EmitLayout
