SPECIFICATION Spec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsPieces
  Life <- Up
  Pieces = 3
  Room = 2
  Readers <- AllClients
  Faults <- AllFaults
  Ghosts = TRUE
  Record = FALSE
  Bugs <- None
INVARIANTS StoreValid Stay Linear Floor InOrder Released
PROPERTIES Grows Patient Answered_ NoService
CHECK_DEADLOCK FALSE
