SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Addrs = {1, 2, 3, 4, 5, 6}
  MaxOps = 3
  Variant = "store"
INVARIANT Inv
SYMMETRY Sym
CHECK_DEADLOCK FALSE
