------------------------------ MODULE CostLawMC ------------------------------
(* The laws of CostLaw against their definitions, for every n up to Top. *)
EXTENDS CostLaw, FiniteSets
CONSTANT Top
VARIABLE n
Init == n = 0
Next == n < Top /\ n' = n + 1
Spec == Init /\ [][Next]_n
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Avl == AvlMin(AvlHeight(n)) <= n /\ n < AvlMin(AvlHeight(n) + 1)
Rb == Pow2(RbHeight(n)) <= (n + 1) * (n + 1) /\ (n + 1) * (n + 1) < Pow2(RbHeight(n) + 1)
Log == n >= 1 => Pow2(Log2(n)) <= n /\ n < Pow2(Log2(n) + 1)
(* Shapes: every height-balanced / red-black shape of up to Small nodes stays within the law. *)
CONSTANT Small
RECURSIVE AvlShapes(_)
\* heights reachable with k nodes
AvlShapes(k) == IF k = 0 THEN {0}
                ELSE UNION {{1 + (IF a > b THEN a ELSE b) : <<a, b>> \in
                              {p \in AvlShapes(i) \X AvlShapes(k - 1 - i) : p[1] - p[2] \in {-1, 0, 1}}} : i \in 0 .. k - 1}
\* <<height, black height, root is red>> of left-leaning red-black trees with k nodes
RECURSIVE RbShapes(_)
RbShapes(k) ==
    IF k = 0 THEN {<<0, 0, 0>>}
    ELSE UNION {{ <<1 + (IF p[1][1] > p[2][1] THEN p[1][1] ELSE p[2][1]), p[1][2] + 1 - c, c>> :
                    <<p, c>> \in {q \in (RbShapes(i) \X RbShapes(k - 1 - i)) \X {0, 1} :
                          /\ q[1][1][2] = q[1][2][2]
                          /\ q[1][2][3] = 0
                          /\ (q[2] = 1 => q[1][1][3] = 0)} } : i \in 0 .. k - 1}
ShapesOk == n <= Small => /\ \A x \in AvlShapes(n) : x <= AvlHeight(n)
                          /\ AvlHeight(n) \in AvlShapes(n)
                          /\ \A x \in RbShapes(n) : x[3] = 0 => x[1] <= RbHeight(n)
Inv == Avl /\ Rb /\ Log /\ ShapesOk
=============================================================================
