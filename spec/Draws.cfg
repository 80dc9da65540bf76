SPECIFICATION Spec
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
