CONSTANTS LMax = 3
          LMask = 2
          Spins = {0, 2}
SPECIFICATION Spec
INVARIANTS ProductRule EnsembleAverage Reduces
