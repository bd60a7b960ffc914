SPECIFICATION Spec
CONSTANTS
  Plans <- PlansCommit
  Scripts <- ScriptsCommit2
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- None
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
