------------------------------ MODULE SplayTree ------------------------------
(* The design of the splay tree: top-down splaying that hangs what it passes *)
(* on two spines, then reassembles them around the node it stops at.         *)
EXTENDS BinTree
CONSTANTS N, Variant   \* "code", or a flawed design
VARIABLES t, s, op
Mk(k, l, r) == <<k, l, r, 0>>
RotL(x) == Mk(K(R(x)), Mk(K(x), L(x), L(R(x))), R(R(x)))
RotR(x) == Mk(K(L(x)), L(L(x)), Mk(K(x), R(L(x)), R(x)))
\* spines are the sequences of trees hung, each with one open place
RECURSIVE CloseLow(_, _)    \* low spine: open place is the right child of the last
CloseLow(sp, x) == IF sp = <<>> THEN x
                   ELSE Mk(K(Head(sp)), L(Head(sp)), CloseLow(Tail(sp), x))
RECURSIVE CloseHigh(_, _)
CloseHigh(sp, x) == IF sp = <<>> THEN x
                    ELSE Mk(K(Head(sp)), CloseHigh(Tail(sp), x), R(Head(sp)))
Stop(x, low, high) ==
    IF Variant = "swapped" THEN Mk(K(x), CloseLow(low, R(x)), CloseHigh(high, L(x)))
    ELSE Mk(K(x), CloseLow(low, L(x)), CloseHigh(high, R(x)))
RECURSIVE Down(_, _, _, _)
Down(x, k, low, high) ==
    IF k < K(x) THEN
        IF L(x) = Nil THEN Stop(x, low, high)
        ELSE LET y == IF k < K(L(x)) /\ Variant # "simple" THEN RotR(x) ELSE x IN
             IF L(y) = Nil THEN Stop(y, low, high)
             ELSE Down(L(y), k, low, Append(high, Mk(K(y), Nil, R(y))))
    ELSE IF k > K(x) THEN
        IF R(x) = Nil THEN Stop(x, low, high)
        ELSE LET y == IF k > K(R(x)) /\ Variant # "simple" THEN RotL(x) ELSE x IN
             IF R(y) = Nil THEN Stop(y, low, high)
             ELSE Down(R(y), k, Append(low, Mk(K(y), L(y), Nil)), high)
    ELSE Stop(x, low, high)
Splay(x, k) == Down(x, k, <<>>, <<>>)
Ins(x, k) == IF x = Nil THEN Mk(k, Nil, Nil)
             ELSE LET y == Splay(x, k) IN
                  IF k < K(y) THEN Mk(k, L(y), Mk(K(y), Nil, R(y)))
                  ELSE IF k > K(y) THEN Mk(k, IF Variant = "lostleft" THEN Nil ELSE Mk(K(y), L(y), Nil), R(y))
                  ELSE y
Rem(x, k) == IF x = Nil THEN Nil
             ELSE LET y == Splay(x, k) IN
                  IF k # K(y) THEN y
                  ELSE IF L(y) = Nil THEN R(y)
                  ELSE LET z == IF Variant = "nosplay" THEN L(y) ELSE Splay(L(y), k) IN Mk(K(z), L(z), R(y))
Touch(x, k) == IF x = Nil THEN Nil ELSE Splay(x, k)

Init == t = Nil /\ s = {} /\ op = "init"
Insert(k) == t' = Ins(t, k) /\ s' = s \union {k} /\ op' = "ins " \o ToString(k)
Remove(k) == t' = Rem(t, k) /\ s' = s \ {k} /\ op' = "rem " \o ToString(k)
GetMut(k) == t' = Touch(t, k) /\ s' = s /\ op' = "set " \o ToString(k)
Next == \E k \in 1 .. N : Insert(k) \/ Remove(k) \/ GetMut(k)
Spec == Init /\ [][Next]_<<t, s, op>>
View == <<t, s>>
Recorded == Export(t, op', t')
Refines == Observes(t, s, N)

(* The amortised cost of Sleator and Tarjan, by the potential of ranks.      *)
(* Ranks are floor(log2 size); one splay of a tree of n nodes that passes d   *)
(* nodes satisfies d + Phi' - Phi <= 3 * (R(n) + 1) + slack on small trees.   *)
RECURSIVE Size(_)
Size(x) == IF x = Nil THEN 0 ELSE 1 + Size(L(x)) + Size(R(x))
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Phi(_)
Phi(x) == IF x = Nil THEN 0 ELSE Log2(Size(x)) + Phi(L(x)) + Phi(R(x))
RECURSIVE Reach(_, _)
Reach(x, k) == IF x = Nil THEN 0 ELSE IF k = K(x) THEN 1 ELSE 1 + Reach(IF k < K(x) THEN L(x) ELSE R(x), k)
RECURSIVE ChainOf(_, _, _)      \* the costliest trees: chains to the left, to the right, and zigzags
ChainOf(a, b, d) ==
    IF a > b THEN Nil
    ELSE CASE d = "left" -> Mk(b, ChainOf(a, b - 1, d), Nil)
           [] d = "right" -> Mk(a, Nil, ChainOf(a + 1, b, d))
           [] d = "zig" -> Mk(b, ChainOf(a, b - 1, "zag"), Nil)
           [] d = "zag" -> Mk(a, Nil, ChainOf(a + 1, b, "zig"))
ChainInit == \E n \in {1, N \div 2, N}, d \in {"left", "right", "zig", "zag"} :
                t = ChainOf(1, n, d) /\ s = 1 .. n /\ op = "init"
ChainNext == TLCGet("level") < 5 /\ \E k \in {1, N \div 3, N \div 2, N} : GetMut(k)
ChainSpec == ChainInit /\ [][ChainNext]_<<t, s, op>>
Amortised == t = Nil \/ \A k \in 0 .. N + 1 :
    LET d == Reach(t, k)  u == Splay(t, k) IN d + Phi(u) - Phi(t) <= 3 * Log2(Size(t)) + 2
=============================================================================
