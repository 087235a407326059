SPECIFICATION Spec
CONSTANTS NParts = 2  NArgs = 2  NItems = 2  Depth = 4  Mutant = "none"
INVARIANTS AsIfNever Refused NothingGone
PROPERTIES Answered
CHECK_DEADLOCK FALSE
