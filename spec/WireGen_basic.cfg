SPECIFICATION Spec
CONSTANT Level = "basic"
INVARIANTS NeverEarly Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
