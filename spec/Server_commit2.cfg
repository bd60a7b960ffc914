SPECIFICATION Spec
CONSTANTS
  Plans <- PlansCommit
  Scripts <- ScriptsCommit2
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = TRUE
  Record = FALSE
  Bugs <- None
INVARIANTS StoreValid Stay Linear Floor InOrder Released
PROPERTIES Grows Patient Answered_ NoService
CHECK_DEADLOCK FALSE
