SPECIFICATION FairSpec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsL2
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- AllFaults
  Ghosts = FALSE
  Record = FALSE
  Bugs <- None
PROPERTIES Returned Answers_ Wakes
CHECK_DEADLOCK FALSE
