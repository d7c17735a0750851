-------------------------------- MODULE Treap --------------------------------
(***************************************************************************)
(* The design of the treap: search trees kept in heap order by a number    *)
(* drawn for each node, and built entirely from splitting and joining.     *)
(* A tree is <<>> or <<key, left, right, priority, from>>, `from` being    *)
(* the operand an entry comes from.  The numbers are chosen by the         *)
(* environment, so every outcome of the random generator is covered,       *)
(* equal ones included.                                                    *)
(***************************************************************************)
EXTENDS BinTree
CONSTANTS N, Prios, Variant
VARIABLES t, u, s, v, op       \* two trees and the sets of <<key, from>> they stand for
P(x) == X(x)
F(x) == x[5]
Mk(x, l, r) == <<K(x), l, r, P(x), F(x)>>
With(x, e) == <<K(x), L(x), R(x), P(x), F(e)>>      \* the same node holding e's entry
RECURSIVE Join(_, _)
Join(a, b) ==
    IF a = Nil THEN b ELSE IF b = Nil THEN a
    ELSE IF P(a) > P(b) THEN Mk(a, L(a), Join(R(a), b))
    ELSE IF Variant = "joinright" THEN Mk(b, Join(L(b), a), R(b))
    ELSE Mk(b, Join(a, L(b)), R(b))
\* <<below, node with the key or Nil, above>>
RECURSIVE Cut(_, _)
Cut(x, k) ==
    IF x = Nil THEN <<Nil, Nil, Nil>>
    ELSE IF k < K(x) THEN LET c == Cut(L(x), k) IN <<c[1], c[2], Mk(x, c[3], R(x))>>
    ELSE IF k > K(x) THEN LET c == Cut(R(x), k) IN <<Mk(x, L(x), c[1]), c[2], c[3]>>
    ELSE <<L(x), Mk(x, Nil, Nil), R(x)>>
RECURSIVE Ins(_, _, _, _)
Ins(x, k, p, f) ==
    IF x = Nil THEN <<k, Nil, Nil, p, f>>
    ELSE IF p <= P(x)
    THEN IF k < K(x) THEN Mk(x, Ins(L(x), k, p, f), R(x))
         ELSE IF k > K(x) THEN Mk(x, L(x), Ins(R(x), k, p, f))
         ELSE <<K(x), L(x), R(x), P(x), f>>
    ELSE LET c == Cut(x, k) IN <<k, c[1], c[3], p, f>>
RECURSIVE Rem(_, _)
Rem(x, k) ==
    IF x = Nil THEN Nil
    ELSE IF k < K(x) THEN Mk(x, Rem(L(x), k), R(x))
    ELSE IF k > K(x) THEN Mk(x, L(x), Rem(R(x), k))
    ELSE Join(L(x), R(x))
\* `sw`: a is the right operand of the call
RECURSIVE Uni(_, _, _)
Uni(a, b, sw) ==
    IF a = Nil THEN b ELSE IF b = Nil THEN a
    ELSE LET swap == P(a) < P(b)
             x == IF swap THEN b ELSE a
             y == IF swap THEN a ELSE b
             w == IF swap THEN ~sw ELSE sw
             c == Cut(y, K(x))
             z == Mk(x, Uni(L(x), c[1], w), Uni(R(x), c[3], w))
         IN IF c[2] # Nil /\ w /\ Variant # "rootwins" THEN With(z, c[2]) ELSE z
RECURSIVE Isect(_, _, _)
Isect(a, b, sw) ==
    IF a = Nil \/ b = Nil THEN Nil
    ELSE LET swap == P(a) < P(b)
             x == IF swap THEN b ELSE a
             y == IF swap THEN a ELSE b
             w == IF swap THEN ~sw ELSE sw
             c == Cut(y, K(x))
             l == Isect(L(x), c[1], w)
             r == Isect(R(x), c[3], w)
         IN IF c[2] = Nil THEN Join(l, r)
            ELSE IF w THEN With(Mk(x, l, r), c[2]) ELSE Mk(x, l, r)
RECURSIVE Dif(_, _, _, _)
Dif(a, b, sw, sym) ==
    IF a = Nil \/ b = Nil
    THEN IF sym \/ Variant = "keepboth" THEN (IF a = Nil THEN b ELSE a) ELSE IF sw THEN b ELSE a
    ELSE LET swap == P(a) < P(b)
             x == IF swap THEN b ELSE a
             y == IF swap THEN a ELSE b
             w == IF swap THEN ~sw ELSE sw
             c == Cut(y, K(x))
             l == Dif(L(x), c[1], w, sym)
             r == Dif(R(x), c[3], w, sym)
         IN IF c[2] # Nil \/ (w /\ ~sym) THEN Join(l, r) ELSE Mk(x, l, r)
RECURSIVE Entries(_)
Entries(x) == IF x = Nil THEN {} ELSE Entries(L(x)) \union {<<K(x), F(x)>>} \union Entries(R(x))
RECURSIVE Heap(_)
Heap(x) == x = Nil \/ (/\ Heap(L(x)) /\ Heap(R(x))
                       /\ (L(x) = Nil \/ P(L(x)) <= P(x)) /\ (R(x) = Nil \/ P(R(x)) <= P(x)))
Dom(q) == {e[1] : e \in q}
At(q, k) == {e \in q : e[1] = k}
Lab(w, k, p) == w \o " " \o ToString(k) \o " " \o ToString(p)

Init == t = Nil /\ u = Nil /\ s = {} /\ v = {} /\ op = "init"
Insert(k, p) == /\ t' = Ins(t, k, p, 1) /\ s' = (s \ At(s, k)) \union {<<k, 1>>}
                /\ op' = Lab("ins 1", k, p) /\ UNCHANGED <<u, v>>
Remove(k) == t' = Rem(t, k) /\ s' = s \ At(s, k) /\ op' = Lab("rem 1", k, 0) /\ UNCHANGED <<u, v>>
Insert2(k, p) == /\ u' = Ins(u, k, p, 2) /\ v' = (v \ At(v, k)) \union {<<k, 2>>}
                 /\ op' = Lab("ins 2", k, p) /\ UNCHANGED <<t, s>>
SplitOff(k, incl) ==
    LET c == Cut(t, k)
        lo == IF incl /\ c[2] # Nil THEN Join(c[1], c[2]) ELSE c[1]
        hi == IF ~incl /\ c[2] # Nil THEN Join(c[2], c[3]) ELSE c[3]
    IN /\ u = Nil
       /\ t' = lo /\ u' = hi
       /\ s' = {e \in s : e[1] < k \/ (incl /\ e[1] = k)} /\ v' = s \ s'
       /\ op' = Lab("split 1 2", k, IF incl THEN 1 ELSE 0)
Alg(w, tree, set) == t' = tree /\ s' = set /\ u' = Nil /\ v' = {} /\ op' = w \o " 1 1 2"
Combine == \/ Alg("uni", Uni(t, u, FALSE), s \union {e \in v : e[1] \notin Dom(s)})
           \/ Alg("int", Isect(t, u, FALSE), {e \in s : e[1] \in Dom(v)})
           \/ Alg("dif", Dif(t, u, FALSE, FALSE), {e \in s : e[1] \notin Dom(v)})
           \/ Alg("sym", Dif(t, u, FALSE, TRUE), {e \in s : e[1] \notin Dom(v)} \union {e \in v : e[1] \notin Dom(s)})
Building == \A e \in s : e[2] = 1
Next == \/ \E k \in 1 .. N, p \in Prios : Insert(k, p)
        \/ \E k \in 1 .. N : Remove(k)
        \/ Building /\ \E k \in 1 .. N, p \in Prios : Insert2(k, p)
        \/ Building /\ (\A e \in v : e[2] = 2) /\ Combine
        \/ \E k \in 0 .. N + 1, i \in BOOLEAN : SplitOff(k, i)
Spec == Init /\ [][Next]_<<t, u, s, v, op>>
\* one tree alone: insertion, removal, and splitting it and keeping one of the parts
Trim(k, incl, low) ==
    LET c == Cut(t, k)
        lo == IF incl /\ c[2] # Nil THEN Join(c[1], c[2]) ELSE c[1]
        hi == IF ~incl /\ c[2] # Nil THEN Join(c[2], c[3]) ELSE c[3]
        below == {e \in s : e[1] < k \/ (incl /\ e[1] = k)}
    IN /\ t' = (IF low THEN lo ELSE hi) /\ s' = (IF low THEN below ELSE s \ below) /\ UNCHANGED <<u, v>>
       /\ op' = Lab("trim " \o (IF low THEN "1" ELSE "0"), k, IF incl THEN 1 ELSE 0)
Next1 == \/ \E k \in 1 .. N, p \in Prios : Insert(k, p)
         \/ \E k \in 1 .. N : Remove(k)
         \/ \E k \in 0 .. N + 1, i \in BOOLEAN, low \in BOOLEAN : Trim(k, i, low)
Spec1 == Init /\ [][Next1]_<<t, u, s, v, op>>
View == <<t, u, s, v>>
Recorded == Export(<<t, u>>, op', <<t', u'>>)
Good(x, q) == Observes(x, Dom(q), N) /\ Entries(x) = q /\ Heap(x)
Refines == Good(t, s) /\ Good(u, v)
=============================================================================
