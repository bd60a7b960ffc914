SPECIFICATION FairSpec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsL1
  Life <- LifeFinish
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = FALSE
  Bugs <- None
PROPERTIES Terminates Closes Wakes Answers_
CHECK_DEADLOCK FALSE
