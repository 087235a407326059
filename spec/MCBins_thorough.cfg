CONSTANTS N = 3
          EllMax = 3
          BpwMax = 2
          Ws = {1, 3}
          Lmaxs = {2, 3}
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS NoOverflow Refines Partition Normalised InRange RightInverse EmitReq
