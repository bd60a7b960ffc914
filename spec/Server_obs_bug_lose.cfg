SPECIFICATION Spec
CONSTANTS
  Plans <- PlansMk
  Scripts <- ScriptsLose
  Life <- LifeLose
  Pieces = 1
  Room = 2
  Readers <- AllClients
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- BugRestart
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
