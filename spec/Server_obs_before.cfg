SPECIFICATION Spec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsLife1
  Life <- LifeBefore
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- None
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
