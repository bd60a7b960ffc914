SPECIFICATION Spec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsFault
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- AllFaults
  Ghosts = FALSE
  Record = TRUE
  Bugs <- None
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
