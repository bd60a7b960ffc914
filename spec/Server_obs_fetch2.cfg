SPECIFICATION Spec
CONSTANTS
  Plans <- PlansFetch2
  Scripts <- ScriptsFetch2
  Life <- Up
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- None
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
