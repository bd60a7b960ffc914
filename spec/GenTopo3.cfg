SPECIFICATION Spec
INVARIANT Valid
PROPERTY Grow
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  TP <- TP4
  Classes <- C1
  MaxLog = 2
  Groups <- G1
  Offs <- O3
  Ops <- OpsTopo
  Depth = 0
