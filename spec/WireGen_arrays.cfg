SPECIFICATION Spec
CONSTANT Level = "arrays"
INVARIANTS NeverEarly Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
