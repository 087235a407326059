CONSTANTS LMax = 3
 LMask = 5
 Pairs <- PT
 Mults <- MT
SPECIFICATION Spec
INVARIANTS EnsembleAverage Reduces
