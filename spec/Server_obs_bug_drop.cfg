SPECIFICATION Spec
CONSTANTS
  Plans <- PlansMk
  Scripts <- ScriptsHeld
  Life <- LifeHeld
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- BugFinish
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
