CONSTANTS NO = 2  NF = 2  NId = 2  Depth = 4  Mutant = "none"
SPECIFICATION Spec
VIEW Full
INVARIANTS AsMade WholeFiles
