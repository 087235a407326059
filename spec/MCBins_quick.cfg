CONSTANTS N = 3
          EllMax = 2
          BpwMax = 1
          Ws = {0, 3}
          Lmaxs = {1, 2}
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS NoOverflow Refines Partition Normalised InRange RightInverse EmitReq
