SPECIFICATION FairSpec
CONSTANTS
  Plans <- PlansFetchL
  Scripts <- ScriptsFetchL
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = FALSE
  Bugs <- None
PROPERTIES Returned Answers_ Wakes
CHECK_DEADLOCK FALSE
