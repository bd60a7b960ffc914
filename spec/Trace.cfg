SPECIFICATION Spec
CONSTRAINT Reach
INVARIANT TypeOK
PROPERTY GrowOnly
POSTCONDITION Post
CHECK_DEADLOCK FALSE
