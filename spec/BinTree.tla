------------------------------- MODULE BinTree -------------------------------
(***************************************************************************)
(* Binary search trees as values, shared by the designs of the three       *)
(* deterministic trees.  A tree is <<>> or <<key, left, right, aux>>; aux  *)
(* is the height (AVL), the colour (red-black) or 0 (splay).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, CSV
Nil == <<>>
K(t) == t[1]
L(t) == t[2]
R(t) == t[3]
X(t) == t[4]
RECURSIVE Inorder(_)
Inorder(t) == IF t = Nil THEN <<>> ELSE Inorder(L(t)) \o <<K(t)>> \o Inorder(R(t))
Sorted(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
Keys(t) == LET s == Inorder(t) IN {s[i] : i \in 1 .. Len(s)}
RECURSIVE Depth(_)
Depth(t) == IF t = Nil THEN 0 ELSE 1 + (IF Depth(L(t)) > Depth(R(t)) THEN Depth(L(t)) ELSE Depth(R(t)))
\* the searches of the code: descend, remember the last node passed on the other side
RECURSIVE Find(_, _)
Find(t, k) == IF t = Nil THEN FALSE ELSE IF k = K(t) THEN TRUE ELSE IF k < K(t) THEN Find(L(t), k) ELSE Find(R(t), k)
RECURSIVE Floor(_, _)
Floor(t, k) == IF t = Nil THEN <<>> ELSE IF k = K(t) THEN <<k>> ELSE IF k < K(t) THEN Floor(L(t), k)
               ELSE LET r == Floor(R(t), k) IN IF r = <<>> THEN <<K(t)>> ELSE r
RECURSIVE Ceil(_, _)
Ceil(t, k) == IF t = Nil THEN <<>> ELSE IF k = K(t) THEN <<k>> ELSE IF k > K(t) THEN Ceil(R(t), k)
              ELSE LET r == Ceil(L(t), k) IN IF r = <<>> THEN <<K(t)>> ELSE r
RECURSIVE Least(_)
Least(t) == IF L(t) = Nil THEN K(t) ELSE Least(L(t))
RECURSIVE Greatest(_)
Greatest(t) == IF R(t) = Nil THEN K(t) ELSE Greatest(R(t))
\* the whole observable behaviour of a tree that should hold the set S
Observes(t, S, N) ==
    /\ Sorted(Inorder(t)) /\ Keys(t) = S
    /\ S # {} => /\ Least(t) \in S /\ Greatest(t) \in S /\ \A k \in S : Least(t) <= k /\ k <= Greatest(t)
    /\ \A k \in 0 .. N + 1 :
         /\ Find(t, k) = (k \in S)
         /\ LET B == {j \in S : j <= k} IN
              IF B = {} THEN Floor(t, k) = <<>> ELSE /\ Len(Floor(t, k)) = 1 /\ Floor(t, k)[1] \in B
                                                     /\ \A j \in B : j <= Floor(t, k)[1]
         /\ LET B == {j \in S : j >= k} IN
              IF B = {} THEN Ceil(t, k) = <<>> ELSE /\ Len(Ceil(t, k)) = 1 /\ Ceil(t, k)[1] \in B
                                                    /\ \A j \in B : j >= Ceil(t, k)[1]
\* one line per transition, to be replayed against the code
Export(from, label, to) ==
    "EDGES" \notin DOMAIN IOEnv \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(from), label, TLCFP(to)>>, IOEnv.EDGES)
=============================================================================
