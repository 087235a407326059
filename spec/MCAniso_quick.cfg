CONSTANTS LMax = 3
 LMask = 4
 Pairs <- PQ
 Mults <- MQ
SPECIFICATION Spec
INVARIANTS EnsembleAverage Reduces
