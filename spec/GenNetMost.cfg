SPECIFICATION Spec
CONSTANTS
  Conns <- Two
  MaxData = 2
  MaxLife = 3
  NetOps <- MostOps
VIEW Sight
INVARIANT Served
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
