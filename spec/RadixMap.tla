------------------------------ MODULE RadixMap -------------------------------
(***************************************************************************)
(* The abstract map over byte strings (sequences of 0..255), ordered       *)
(* lexicographically, with longest-prefix queries.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Vals
VARIABLE m        \* function: stored key -> value

Min2(a, b) == IF a < b THEN a ELSE b
\* length of the common prefix
LCP(a, b) ==
    LET n == Min2(Len(a), Len(b))
        D == {i \in 1 .. n : a[i] # b[i]}
    IN IF D = {} THEN n ELSE (CHOOSE i \in D : \A j \in D : i <= j) - 1
Lex(a, b) == LET c == LCP(a, b) IN
    IF c = Len(a) THEN c < Len(b) ELSE IF c = Len(b) THEN FALSE ELSE a[c + 1] < b[c + 1]

Stored == DOMAIN m
Has(k) == k \in Stored
Val(k) == IF Has(k) THEN <<m[k]>> ELSE <<>>
Pair(k) == IF Has(k) THEN <<k, m[k]>> ELSE <<>>
Least(S) == IF S = {} THEN <<>> ELSE <<CHOOSE k \in S : \A j \in S : j = k \/ Lex(k, j)>>
Greatest(S) == IF S = {} THEN <<>> ELSE <<CHOOSE k \in S : \A j \in S : j = k \/ Lex(j, k)>>

\* s lists distinct elements of S in order; all of them or the n smallest
IsListing(s, S, n) ==
    /\ Len(s) = Min2(n, Cardinality(S))
    /\ \A i \in 1 .. Len(s) : s[i] \in S
    /\ \A i \in 1 .. Len(s) - 1 : Lex(s[i], s[i + 1])
    /\ IF Len(s) = 0 \/ Len(s) = Cardinality(S) THEN TRUE
       ELSE Cardinality({k \in S : k = s[Len(s)] \/ Lex(k, s[Len(s)])}) = Len(s)

\* keys sharing the longest prefix with the query
Best(k) ==
    LET L == {LCP(k, j) : j \in Stored}
        top == IF L = {} THEN 0 ELSE CHOOSE x \in L : \A y \in L : y <= x
    IN IF k # <<>> /\ top = 0 THEN {j \in Stored : j = <<>>}
       ELSE {j \in Stored : LCP(k, j) = top}

Insert(k, v) == m' = [j \in Stored \cup {k} |-> IF j = k THEN v ELSE m[j]]
Remove(k)    == m' = [j \in Stored \ {k} |-> m[j]]
Write(k, v)  == m' = [j \in Stored |-> IF j = k THEN v ELSE m[j]]
Clear        == m' = [j \in {} |-> 0]
AddAll(n, d) == m' = [j \in Stored |->
                   IF Cardinality({k \in Stored : k = j \/ Lex(k, j)}) <= n THEN m[j] + d ELSE m[j]]

Init == m = [j \in {} |-> 0]
Next == \E k \in Keys, v \in Vals : Insert(k, v) \/ Remove(k) \/ Write(k, v) \/ Clear
Spec == Init /\ [][Next]_m

Laws ==
    /\ \A a, b \in Keys : /\ a = b \/ Lex(a, b) \/ Lex(b, a)
                          /\ ~(Lex(a, b) /\ Lex(b, a)) /\ ~Lex(a, a)
    /\ \A a, b, c \in Keys : Lex(a, b) /\ Lex(b, c) => Lex(a, c)
    /\ Best(<<>>) = Stored
    /\ \A k \in Keys :
         /\ Best(k) \subseteq Stored
         /\ Has(k) => k \in Best(k) /\ \A j \in Best(k) : LCP(j, k) = Len(k)
         /\ (Best(k) = {}) = (Stored \cap {j \in Keys : j = <<>> \/ k = <<>> \/ (k # <<>> /\ j # <<>> /\ j[1] = k[1])} = {})
=============================================================================
