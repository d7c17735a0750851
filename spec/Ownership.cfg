SPECIFICATION Spec
CONSTANT Containers = {1, 2, 3}
INVARIANT Exclusive
PROPERTY Irreversible
CHECK_DEADLOCK FALSE
