SPECIFICATION FairSpec
CONSTANTS
  Plans <- PlansNone
  Scripts <- ScriptsPipe
  Life <- LifeOnce
  Pieces = 1
  Room = 1
  Readers <- Nobody
  Faults <- None
  Ghosts = FALSE
  Record = FALSE
  Bugs <- None
PROPERTIES Terminates Closes Wakes Answers_
CHECK_DEADLOCK FALSE
