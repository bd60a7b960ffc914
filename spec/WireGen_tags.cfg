SPECIFICATION Spec
CONSTANT Level = "tags"
INVARIANTS NeverEarly Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
