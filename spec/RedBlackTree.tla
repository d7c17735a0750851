----------------------------- MODULE RedBlackTree ----------------------------
(* The design of the left-leaning red-black tree (2-3 variant): recursive   *)
(* insertion with repairs on the way up, removal that pushes a red link     *)
(* down before it.  The colour of a node is the colour of the link to it.   *)
EXTENDS BinTree
CONSTANTS N, Variant   \* "code", or a flawed design
VARIABLES t, s, op
Red == 1
Black == 0
IsRed(x) == x # Nil /\ X(x) = Red
Paint(x, c) == IF x = Nil THEN Nil ELSE <<K(x), L(x), R(x), c>>
FlipOne(x) == IF x = Nil THEN Nil ELSE Paint(x, 1 - X(x))
Flip(x) == <<K(x), FlipOne(L(x)), FlipOne(R(x)), 1 - X(x)>>
RotL(x) == LET c == R(x) IN <<K(c), <<K(x), L(x), L(c), Red>>, R(c), X(x)>>
RotR(x) == LET c == L(x) IN <<K(c), L(c), <<K(x), R(c), R(x), Red>>, X(x)>>
Fix(x) ==
    LET b == IF IsRed(L(x)) /\ IsRed(L(L(x))) THEN RotR(x) ELSE x
    IN IF IsRed(L(b)) /\ IsRed(R(b)) THEN Flip(b) ELSE b
AfterInsert(x) == Fix(IF IsRed(R(x)) /\ ~IsRed(L(x)) THEN RotL(x) ELSE x)
AfterRemove(x) == IF Variant = "norepair" THEN x ELSE Fix(IF IsRed(R(x)) THEN RotL(x) ELSE x)
RECURSIVE Ins(_, _)
Ins(x, k) == IF x = Nil THEN <<k, Nil, Nil, IF Variant = "blackleaf" THEN Black ELSE Red>>
             ELSE AfterInsert(IF k = K(x) THEN x
                              ELSE IF k < K(x) THEN <<K(x), Ins(L(x), k), R(x), X(x)>>
                              ELSE <<K(x), L(x), Ins(R(x), k), X(x)>>)
ShiftL(y) == LET x == Flip(y) IN
    IF R(x) # Nil /\ IsRed(L(R(x))) /\ Variant # "noborrow"
    THEN Flip(RotL(<<K(x), L(x), RotR(R(x)), X(x)>>)) ELSE x
ShiftR(y) == LET x == Flip(y) IN
    IF L(x) # Nil /\ IsRed(L(L(x))) /\ Variant # "noborrow" THEN Flip(RotR(x)) ELSE x
MustShift(c) == c # Nil /\ ~IsRed(c) /\ ~IsRed(L(c))
RECURSIVE RemMin(_)
RemMin(x) == IF L(x) = Nil THEN <<K(x), R(x)>>
             ELSE LET y == IF MustShift(L(x)) THEN ShiftL(x) ELSE x
                      q == RemMin(L(y))
                  IN <<q[1], AfterRemove(<<K(y), q[2], R(y), X(y)>>)>>
RECURSIVE Rem(_, _)
Rem(x, k) ==
    IF x = Nil THEN Nil
    ELSE IF k < K(x)
    THEN LET y == IF MustShift(L(x)) THEN ShiftL(x) ELSE x
         IN AfterRemove(<<K(y), Rem(L(y), k), R(y), X(y)>>)
    ELSE LET y == IF IsRed(L(x)) THEN RotR(x) ELSE x IN
         IF k = K(y) /\ R(y) = Nil
         THEN IF Assert(L(y) = Nil, "a node without right child has a left child") THEN Nil ELSE Nil
         ELSE LET z == IF MustShift(R(y)) THEN ShiftR(y) ELSE y IN
              IF k = K(z) THEN LET q == RemMin(R(z)) IN AfterRemove(<<q[1], L(z), q[2], X(z)>>)
              ELSE AfterRemove(<<K(z), L(z), Rem(R(z), k), X(z)>>)
FixRoot(x) == IF x # Nil /\ ~IsRed(L(x)) /\ ~IsRed(R(x)) THEN Paint(x, Red) ELSE x

Init == t = Nil /\ s = {} /\ op = "init"
Insert(k) == t' = Paint(Ins(t, k), Black) /\ s' = s \union {k} /\ op' = "ins " \o ToString(k)
Remove(k) == t' = Paint(Rem(FixRoot(t), k), Black) /\ s' = s \ {k} /\ op' = "rem " \o ToString(k)
Next == \E k \in 1 .. N : Insert(k) \/ Remove(k)
Spec == Init /\ [][Next]_<<t, s, op>>
View == <<t, s>>
Recorded == Export(t, op', t')

RECURSIVE Blacks(_)    \* number of black links on every path, or -1
Blacks(x) == IF x = Nil THEN 0
             ELSE LET a == Blacks(L(x))  b == Blacks(R(x)) IN
                  IF a < 0 \/ b < 0 \/ a # b THEN -1 ELSE a + (1 - X(x))
RECURSIVE Leaning(_)   \* no right-leaning red link, no two red links in a row
Leaning(x) == x = Nil \/ (/\ ~IsRed(R(x)) /\ ~(IsRed(x) /\ IsRed(L(x))) /\ Leaning(L(x)) /\ Leaning(R(x)))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Refines == Observes(t, s, N)
\* depth <= 2 log2(n+1)
Balanced == /\ Blacks(t) >= 0 /\ Leaning(t) /\ ~IsRed(t)
            /\ Pow2(Depth(t)) <= (Cardinality(s) + 1) * (Cardinality(s) + 1)
=============================================================================
