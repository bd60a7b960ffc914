SPECIFICATION SimSpec
INVARIANT Valid
PROPERTY Grow
ACTION_CONSTRAINT Emit

CHECK_DEADLOCK FALSE
CONSTANTS
  TP <- TP4
  Classes <- C4
  MaxLog = 12
  Groups <- G2
  Offs <- O4
  Ops <- OpsAll
  Depth = 40
