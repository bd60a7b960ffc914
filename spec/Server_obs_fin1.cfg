SPECIFICATION Spec
CONSTANTS
  Plans <- PlansNone
  Scripts <- ScriptsFin1
  Life <- LifeFin1
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- None
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
