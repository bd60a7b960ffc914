SPECIFICATION Spec
CONSTANT Level = "structs"
INVARIANTS NeverEarly Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
