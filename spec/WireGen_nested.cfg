SPECIFICATION Spec
CONSTANT Level = "nested"
INVARIANTS NeverEarly Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
