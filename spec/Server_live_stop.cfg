SPECIFICATION FairSpec
CONSTANTS
  Plans <- PlansOne
  Scripts <- ScriptsL2
  Life <- LifeOnce
  Pieces = 1
  Room = 1
  Readers <- Reader1
  Faults <- None
  Ghosts = FALSE
  Record = FALSE
  Bugs <- None
PROPERTIES Terminates Closes Wakes Answers_
CHECK_DEADLOCK FALSE
