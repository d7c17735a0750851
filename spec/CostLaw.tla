------------------------------- MODULE CostLaw -------------------------------
(***************************************************************************)
(* What a search in a collection of n entries may cost, by kind of         *)
(* collection, in visited nodes.                                           *)
(***************************************************************************)
EXTENDS Integers
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)      \* floor
L(n) == Log2(n) + 1
\* the fewest nodes an AVL tree of height k can have, and the greatest height n nodes allow
RECURSIVE AvlMin(_)
AvlMin(k) == IF k = 0 THEN 0 ELSE IF k = 1 THEN 1 ELSE 1 + AvlMin(k - 1) + AvlMin(k - 2)
RECURSIVE AvlGrow(_, _, _, _)
AvlGrow(n, k, a, b) == IF b > n THEN k ELSE AvlGrow(n, k + 1, b, 1 + a + b)   \* a, b: AvlMin(k), AvlMin(k + 1)
AvlHeight(n) == AvlGrow(n, 0, 0, 1)
\* the greatest k with k <= 2 log2(n + 1)
RECURSIVE RbGrow(_, _, _)
RbGrow(sq, k, p) == IF p > sq THEN k ELSE RbGrow(sq, k + 1, 2 * p)            \* p: 2^(k+1)
RbHeight(n) == RbGrow((n + 1) * (n + 1), 0, 2)

(* One lookup of the worst kind; an average lookup; restructuring calls in total. *)
Worst(im, n) == CASE im \in {"avlmap", "avlset"} -> AvlHeight(n)
                  [] im \in {"rbmap", "rbset"} -> RbHeight(n)
                  [] im \in {"treapmap", "treapset"} -> 5 * (L(n) + 3)
                  [] im \in {"skipmap", "skipset"} -> 16 * (L(n) + 4)
                  [] OTHER -> n
Mean(im, n) == CASE im \in {"treapmap", "treapset"} -> 3 * (L(n) + 2)
                 [] im \in {"skipmap", "skipset"} -> 6 * (L(n) + 3)
                 [] OTHER -> Worst(im, n)
\* ops calls on at most n entries, of which up to n entered at no charge
Work(im, n, ops) == CASE im \in {"splaymap", "splayset"} -> 2 * (ops * (3 * L(n) + 4) + n * L(n))
                      [] im \in {"treapmap", "treapset"} -> (ops + 4) * 5 * (L(n) + 3)
                      [] im \in {"skipmap", "skipset"} -> (ops + 4) * 12 * (L(n) + 4)
                      [] OTHER -> (ops + 4) * 12 * (L(n) + 2)
(* Instructions: what a call costs at n entries against what it cost at n0. *)
StepsOk(n, s, n0, s0) == s * L(n0) <= 3 * s0 * L(n)
=============================================================================
