SPECIFICATION Spec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsRestart
  Life <- LifeRestart
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = FALSE
  Bugs <- BugRestart
INVARIANTS StoreValid Stay Linear Floor InOrder Released
PROPERTIES Grows Patient Answered_ NoService
CHECK_DEADLOCK FALSE
