CONSTANTS NW = 2  NFiles = 1  NBeams = 2  NBinsets = 2  Depth = 4  Emit = TRUE  Mutant = "none"
SPECIFICATION Spec
VIEW Full
INVARIANTS FromIngredients FileIsAWorkspace Identities
