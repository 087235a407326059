CONSTANTS LMax = 3
          LMask = 3
          Spins = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS EnsembleAverage FullSkyIdentity Reciprocity
