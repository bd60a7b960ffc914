SPECIFICATION Spec
INVARIANT Valid
PROPERTY Grow
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  TP <- TP1
  Classes <- C4
  MaxLog = 4
  Groups <- G1
  Offs <- O3
  Ops <- OpsLog
  Depth = 0
