CONSTANTS N = 3  Deep = 0  Mutant = "none"
SPECIFICATION Spec
INVARIANTS MaskPairs FieldPairs OrderFree Clustering ClusteringNoise
CHECK_DEADLOCK FALSE
