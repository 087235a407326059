CONSTANTS NW = 2  NFiles = 1  NBeams = 3  NBinsets = 3  Depth = 5  Emit = TRUE  Mutant = "none"
SPECIFICATION Spec
VIEW Full
INVARIANTS FromIngredients FileIsAWorkspace Identities
