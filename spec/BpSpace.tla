------------------------------- MODULE BpSpace -------------------------------
(* How many pages a B+ tree of n entries may need when every node but the root is at least half full. *)
EXTENDS Integers
MinLeaf(ld)   == (ld + 1) \div 2
MinFan(id)    == IF (id + 1) \div 2 < 2 THEN 2 ELSE (id + 1) \div 2
RECURSIVE Above(_, _)
Above(c, fan) == IF c <= 1 THEN 0
                 ELSE LET p == IF c \div fan < 1 THEN 1 ELSE c \div fan IN p + Above(p, fan)
MaxPages(n, ld, id) ==
    LET leaves == IF n \div MinLeaf(ld) < 1 THEN 1 ELSE n \div MinLeaf(ld)
    IN leaves + Above(leaves, MinFan(id))
=============================================================================
