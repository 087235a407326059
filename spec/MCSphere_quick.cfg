CONSTANTS LMax = 2
          Spins = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS Inverse Area EB Product
