------------------------------ MODULE TreapSeq ------------------------------
(***************************************************************************)
(* The design of the treap as a sequence: every node counts the nodes of    *)
(* its subtree, positions are found by these counts, and everything is cut  *)
(* and joined.  A tree is <<>> or <<value, left, right, priority, count>>.  *)
(* The environment chooses the priorities, equal ones included.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, CSV
CONSTANTS Size, Prios, Variant
VARIABLES t, u, s, v, op      \* two trees and the sequences they stand for
Nil == <<>>
L(x) == x[2]
R(x) == x[3]
P(x) == x[4]
C(x) == IF x = Nil THEN 0 ELSE x[5]
Mk(x, l, r) == <<x[1], l, r, x[4], 1 + C(l) + C(r)>>
Kept(x, l, r) == <<x[1], l, r, x[4], x[5]>>       \* links changed, count not renewed
Here(x) == C(L(x)) + 1                            \* the position of the root in its tree
RECURSIVE Join(_, _)
Join(a, b) ==
    IF a = Nil THEN b ELSE IF b = Nil THEN a
    ELSE IF P(a) > P(b) THEN (IF Variant = "joincount" THEN Kept(a, L(a), Join(R(a), b)) ELSE Mk(a, L(a), Join(R(a), b)))
    ELSE Mk(b, Join(a, L(b)), R(b))
\* <<the nodes before position i, the others>>
RECURSIVE Cut(_, _)
Cut(x, i) ==
    IF x = Nil THEN <<Nil, Nil>>
    ELSE IF i <= Here(x)
    THEN LET c == Cut(L(x), i) IN <<c[1], IF Variant = "cutcount" THEN Kept(x, c[2], R(x)) ELSE Mk(x, c[2], R(x))>>
    ELSE LET c == Cut(R(x), IF Variant = "cutshift" THEN i - C(L(x)) ELSE i - Here(x)) IN <<Mk(x, L(x), c[1]), c[2]>>
InsertAt(x, i, val, p) == LET c == Cut(x, i) IN Join(Join(c[1], <<val, Nil, Nil, p, 1>>), c[2])
RECURSIVE RemoveAt(_, _)
RemoveAt(x, i) ==
    IF i < Here(x) THEN (IF Variant = "remcount" THEN Kept(x, RemoveAt(L(x), i), R(x)) ELSE Mk(x, RemoveAt(L(x), i), R(x)))
    ELSE IF i > Here(x) THEN Mk(x, L(x), RemoveAt(R(x), i - Here(x)))
    ELSE Join(L(x), R(x))
RECURSIVE Get(_, _)
Get(x, i) == IF x = Nil THEN <<>> ELSE IF i < Here(x) THEN Get(L(x), i)
             ELSE IF i > Here(x) THEN Get(R(x), i - Here(x)) ELSE <<x[1]>>
RECURSIVE Content(_)
Content(x) == IF x = Nil THEN <<>> ELSE Content(L(x)) \o <<x[1]>> \o Content(R(x))
RECURSIVE Shape(_)
Shape(x) == IF x = Nil THEN <<>> ELSE <<Shape(L(x)), Shape(R(x)), x[4], x[5]>>
Place(q, i, val) == SubSeq(q, 1, i) \o <<val>> \o SubSeq(q, i + 1, Len(q))
Without(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
In(q) == {q[i] : i \in 1 .. Len(q)}
FreshVal == CHOOSE x \in 1 .. Size : x \notin In(s) \union In(v) /\ \A w \in 1 .. x - 1 : w \in In(s) \union In(v)
Lab(w, a, b) == w \o " " \o ToString(a) \o " " \o ToString(b)
Init == t = Nil /\ u = Nil /\ s = <<>> /\ v = <<>> /\ op = "init"
Room == Len(s) + Len(v) < Size
Insert == Room /\ \E i \in 0 .. Len(s), p \in Prios :
            t' = InsertAt(t, i + 1, FreshVal, p) /\ s' = Place(s, i, FreshVal) /\ op' = Lab("ins 1", i, p) /\ UNCHANGED <<u, v>>
Push2 == Room /\ \E p \in Prios :
            u' = InsertAt(u, Len(v) + 1, FreshVal, p) /\ v' = Append(v, FreshVal) /\ op' = Lab("ins 2", Len(v), p) /\ UNCHANGED <<t, s>>
Remove == \E i \in 0 .. Len(s) - 1 :
            t' = RemoveAt(t, i + 1) /\ s' = Without(s, i) /\ op' = Lab("rem 1", i, 0) /\ UNCHANGED <<u, v>>
Concat == v # <<>> /\ t' = Join(t, u) /\ s' = s \o v /\ u' = Nil /\ v' = <<>> /\ op' = "cat 1 1 2"
Next == Insert \/ Push2 \/ Remove \/ Concat
Spec == Init /\ [][Next]_<<t, u, s, v, op>>
View == <<Shape(t), Shape(u), Content(t) = s, Content(u) = v>>
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(View), op', TLCFP(View')>>, IOEnv.EDGES)
RECURSIVE Sound(_)
Sound(x) == x = Nil \/ (/\ Sound(L(x)) /\ Sound(R(x)) /\ C(x) = 1 + C(L(x)) + C(R(x))
                        /\ (L(x) = Nil \/ P(L(x)) <= P(x)) /\ (R(x) = Nil \/ P(R(x)) <= P(x)))
Reads(x, q) == /\ Content(x) = q /\ C(x) = Len(q)
               /\ \A i \in 0 .. Len(q) + 1 : Get(x, i + 1) = (IF i < Len(q) THEN <<q[i + 1]>> ELSE <<>>)
Refines == Reads(t, s) /\ Reads(u, v)
Shaped == Sound(t) /\ Sound(u)
=============================================================================
