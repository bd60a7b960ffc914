SPECIFICATION Spec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsLife
  Life <- LifeFinish
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = FALSE
  Bugs <- BugServe
INVARIANTS StoreValid Stay Linear Floor InOrder Released
PROPERTIES Grows Patient Answered_ NoService
CHECK_DEADLOCK FALSE
