SPECIFICATION Spec
CONSTANTS
  Conns <- Two
  MaxData = 2
  MaxLife = 1
  NetOps <- FaultOps
VIEW Sight
INVARIANT Served
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
