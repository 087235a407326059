CONSTANTS NObj = 2  NSrc = 2  Depth = 6  Emit = TRUE  Mutant = "none"
SPECIFICATION Spec
VIEW Full
INVARIANTS CachesAreFresh AnswersAreFresh
