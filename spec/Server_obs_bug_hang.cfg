SPECIFICATION Spec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsLife
  Life <- LifeStop
  Pieces = 1
  Room = 1
  Readers <- Reader1
  Faults <- None
  Ghosts = FALSE
  Record = TRUE
  Bugs <- BugDeadline
INVARIANTS PrintObs
CHECK_DEADLOCK FALSE
