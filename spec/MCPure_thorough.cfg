CONSTANTS LMax = 4
          LMask = 4
          Spins = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS ProductRule EnsembleAverage Reduces
