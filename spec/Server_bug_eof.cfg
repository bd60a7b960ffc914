SPECIFICATION FairSpec
CONSTANTS
  Plans <- PlansNone
  Scripts <- ScriptsPipe
  Life <- Up
  Pieces = 2
  Room = 2
  Readers <- AllClients
  Faults <- AllFaults
  Ghosts = FALSE
  Record = FALSE
  Bugs <- BugEof
PROPERTIES Returned Answers_
CHECK_DEADLOCK FALSE
