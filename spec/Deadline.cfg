SPECIFICATION Spec
INVARIANTS NeverEarly Truthful
CHECK_DEADLOCK FALSE
