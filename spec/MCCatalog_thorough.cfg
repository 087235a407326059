CONSTANTS N = 4  Deep = 1  Mutant = "none"
SPECIFICATION Spec
INVARIANTS MaskPairs FieldPairs OrderFree Clustering ClusteringNoise
CHECK_DEADLOCK FALSE
