SPECIFICATION Spec
CONSTANTS
  Conns <- Two
  MaxData = 1
  MaxLife = 3
  NetOps <- StopOps
VIEW Sight
INVARIANT Served
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
