SPECIFICATION Spec
CONSTANTS
  Conns <- Some
  MaxData = 1
  MaxLife = 5
  NetOps <- LifeOps
VIEW Sight
INVARIANT Served
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
