SPECIFICATION FairSpec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsL1
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = FALSE
  Bugs <- BugStale
PROPERTIES Returned Answers_ Wakes
CHECK_DEADLOCK FALSE
