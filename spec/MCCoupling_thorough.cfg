CONSTANTS LMax = 4
          LMask = 5
          Spins = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS EnsembleAverage FullSkyIdentity Reciprocity
