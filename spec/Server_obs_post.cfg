SPECIFICATION Spec
CONSTANTS
  Plans <- PlansPost
  Scripts <- ScriptsPost
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- None
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
