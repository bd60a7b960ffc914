SPECIFICATION Spec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsFault
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- AllFaults
  Ghosts = FALSE
  Record = FALSE
  Bugs <- None
INVARIANTS StoreValid Stay Linear Floor InOrder Released
PROPERTIES Grows Patient Answered_ NoService
CHECK_DEADLOCK FALSE
