SPECIFICATION Spec
CONSTANTS NParts = 2  NArgs = 2  NItems = 2  Depth = 3  Mutant = "none"
INVARIANTS AsIfNever Refused NothingGone
PROPERTIES Answered
CHECK_DEADLOCK FALSE
