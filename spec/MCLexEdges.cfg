SPECIFICATION EdgeSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {}
  MaxLen = 12
  Dump = FALSE
VIEW ModeView
ACTION_CONSTRAINT Edge
