------------------------------- MODULE AvlTree -------------------------------
(* The design of the AVL tree: recursive insertion and removal, one        *)
(* rebalancing per node on the way back up, stored heights.                *)
EXTENDS BinTree
CONSTANTS N, Variant   \* "code", or a flawed design
VARIABLES t, s, op
H(x) == IF x = Nil THEN 0 ELSE X(x)
Max(a, b) == IF a > b THEN a ELSE b
Mk(k, l, r) == <<k, l, r, 1 + Max(H(l), H(r))>>
Bal(x) == H(L(x)) - H(R(x))
RotL(x) == LET c == R(x) IN Mk(K(c), Mk(K(x), L(x), L(c)), R(c))
RotR(x) == LET c == L(x) IN Mk(K(c), L(c), Mk(K(x), R(c), R(x)))
Balance(y) ==
    IF y = Nil THEN Nil ELSE
    LET x == IF Variant = "stale" THEN y ELSE Mk(K(y), L(y), R(y)) IN
    IF Bal(x) > 1
    THEN RotR(IF Bal(L(x)) < 0 /\ Variant # "single" THEN <<K(x), RotL(L(x)), R(x), X(x)>> ELSE x)
    ELSE IF Bal(x) < -1
    THEN RotL(IF Bal(R(x)) > (IF Variant = "thin" THEN 1 ELSE 0) THEN <<K(x), L(x), RotR(R(x)), X(x)>> ELSE x)
    ELSE x
RECURSIVE Ins(_, _)
Ins(x, k) == IF x = Nil THEN <<k, Nil, Nil, 1>>
             ELSE IF k = K(x) THEN x
             ELSE IF k < K(x) THEN Balance(<<K(x), Ins(L(x), k), R(x), X(x)>>)
             ELSE Balance(<<K(x), L(x), Ins(R(x), k), X(x)>>)
\* <<smallest key, the rest>>
RECURSIVE RemMin(_)
RemMin(x) == IF L(x) = Nil THEN <<K(x), R(x)>>
             ELSE LET q == RemMin(L(x))  y == <<K(x), q[2], R(x), X(x)>> IN
                  <<q[1], IF Variant = "lazymin" THEN y ELSE Balance(y)>>
RECURSIVE Rem(_, _)
Rem(x, k) == IF x = Nil THEN Nil
             ELSE IF k < K(x) THEN Balance(<<K(x), Rem(L(x), k), R(x), X(x)>>)
             ELSE IF k > K(x) THEN Balance(<<K(x), L(x), Rem(R(x), k), X(x)>>)
             ELSE IF L(x) = Nil THEN Balance(R(x))
             ELSE IF R(x) = Nil THEN Balance(L(x))
             ELSE LET q == RemMin(R(x)) IN Balance(<<q[1], L(x), q[2], X(x)>>)

Init == t = Nil /\ s = {} /\ op = "init"
Insert(k) == t' = Ins(t, k) /\ s' = s \union {k} /\ op' = "ins " \o ToString(k)
Remove(k) == t' = Rem(t, k) /\ s' = s \ {k} /\ op' = "rem " \o ToString(k)
Next == \E k \in 1 .. N : Insert(k) \/ Remove(k)
Spec == Init /\ [][Next]_<<t, s, op>>
View == <<t, s>>
Recorded == Export(t, op', t')

RECURSIVE Heights(_)   \* stored heights are the heights, and siblings differ by at most one
Heights(x) == x = Nil \/ (/\ Heights(L(x)) /\ Heights(R(x)) /\ X(x) = 1 + Max(H(L(x)), H(R(x))) /\ Bal(x) \in -1 .. 1)
RECURSIVE Min(_)       \* fewest entries an AVL tree of this height can hold
Min(h) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + Min(h - 1) + Min(h - 2)
Refines == Observes(t, s, N)
Balanced == Heights(t) /\ Min(Depth(t)) <= Cardinality(s)
=============================================================================
