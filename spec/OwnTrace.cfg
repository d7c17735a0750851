SPECIFICATION TraceSpec
CONSTANT Containers = {1, 2, 3}
INVARIANT Exclusive
