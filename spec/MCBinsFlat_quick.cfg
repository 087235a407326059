CONSTANTS Top = 6
          MaxBands = 3
          MaxReq = 3
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS LayoutsOrdered OnlyTheMultipole CursorInRange EmitLayout
