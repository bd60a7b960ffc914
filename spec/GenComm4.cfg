SPECIFICATION Spec
INVARIANT Valid
PROPERTY Grow
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  TP <- TP2
  Classes <- C1
  MaxLog = 1
  Groups <- G2
  Offs <- O3
  Ops <- OpsComm
  Depth = 0
