CONSTANTS LMax = 3
          Spins = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS Inverse Idempotent Area EB Product
