------------------------------- MODULE OrdMap -------------------------------
(***************************************************************************)
(* The abstract ordered map every ordered map and set of the library must  *)
(* refine.  Several collections ("slots") exist at once so that set        *)
(* algebra and splitting can be stated.                                    *)
(*                                                                         *)
(* An entry is <<id, value>>: id is the identity of the stored key (keys   *)
(* that compare equal are still distinguishable objects); sets use value 0.*)
(* Absent keys map to None.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots, Entries

None == <<>>

VARIABLE m        \* m[s] : function from the key domain to entry or None

(*--- one map ---*)
Empty(D)        == [k \in D |-> None]
Has(f, k)       == k \in DOMAIN f /\ f[k] # None
Dom(f)          == {k \in DOMAIN f : f[k] # None}
Size(f)         == Cardinality(Dom(f))
At(f, k)        == IF k \in DOMAIN f THEN f[k] ELSE None
Pair(f, k)      == IF Has(f, k) THEN <<k>> \o f[k] ELSE <<>>    \* <<key, id, value>> or <<>>
Put(f, k, e)    == [f EXCEPT ![k] = e]
Del(f, k)       == IF k \in DOMAIN f THEN [f EXCEPT ![k] = None] ELSE f
SetVal(f, k, v) == [f EXCEPT ![k] = <<@[1], v>>]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
FloorKey(f, k) == LET S == {j \in Dom(f) : j <= k} IN IF S = {} THEN None ELSE <<MaxOf(S)>>
CeilKey(f, k)  == LET S == {j \in Dom(f) : j >= k} IN IF S = {} THEN None ELSE <<MinOf(S)>>
MinKey(f) == IF Dom(f) = {} THEN None ELSE <<MinOf(Dom(f))>>
MaxKey(f) == IF Dom(f) = {} THEN None ELSE <<MaxOf(Dom(f))>>
\* <<key, id>> of an optional key
WithId(f, o) == IF o = None THEN <<>> ELSE <<o[1], f[o[1]][1]>>

(* c is the sequence <<key,id,value>> of the entries of f in ascending order, cut after n of them *)
IsContents(c, f, n) ==
    /\ Len(c) = (IF n < Size(f) THEN n ELSE Size(f))
    /\ \A i \in 1 .. Len(c) : Pair(f, c[i][1]) = c[i]
    /\ \A i \in 1 .. Len(c) - 1 : c[i][1] < c[i+1][1]
    \* a proper prefix must be the smallest ones
    /\ IF Len(c) = 0 \/ Len(c) = Size(f) THEN TRUE
       ELSE Cardinality({k \in Dom(f) : k <= c[Len(c)][1]}) = Len(c)

(*--- two maps ---*)
Union(f, g)   == [k \in DOMAIN f |-> IF f[k] # None THEN f[k] ELSE g[k]]
Inter(f, g)   == [k \in DOMAIN f |-> IF g[k] # None THEN f[k] ELSE None]
Diff(f, g)    == [k \in DOMAIN f |-> IF g[k] # None THEN None ELSE f[k]]
SymDiff(f, g) == [k \in DOMAIN f |-> IF f[k] # None /\ g[k] # None THEN None
                                     ELSE IF f[k] # None THEN f[k] ELSE g[k]]
Below(f, k, incl) == [j \in DOMAIN f |-> IF j < k \/ (incl /\ j = k) THEN f[j] ELSE None]
Above(f, k, incl) == [j \in DOMAIN f |-> IF j < k \/ (incl /\ j = k) THEN None ELSE f[j]]

(*--- actions ---*)
Insert(s, k, e) == m' = [m EXCEPT ![s] = Put(@, k, e)]
Remove(s, k)    == m' = [m EXCEPT ![s] = Del(@, k)]
Write(s, k, v)  == m' = [m EXCEPT ![s] = IF Has(@, k) THEN SetVal(@, k, v) ELSE @]
Clear(s)        == m' = [m EXCEPT ![s] = Empty(DOMAIN @)]
AddAll(s, n, d) ==                       \* the first n values in key order grow by d
    m' = [m EXCEPT ![s] = [k \in DOMAIN @ |->
            IF @[k] # None /\ Cardinality({j \in Dom(m[s]) : j <= k}) <= n
            THEN <<@[k][1], @[k][2] + d>> ELSE @[k]]]
\* results of algebra go to slot d; the operands a and b are consumed
Combine(Op(_, _), d, a, b) ==
    m' = [s \in DOMAIN m |-> IF s = d THEN Op(m[a], m[b])
                             ELSE IF s \in {a, b} THEN Empty(DOMAIN m[s]) ELSE m[s]]
Split(s, d, k, incl) ==
    m' = [m EXCEPT ![s] = Below(@, k, incl), ![d] = Above(m[s], k, incl)]

Init == \E D \in {1 .. 3} : m = [s \in Slots |-> Empty(D)]
Next == \E s \in Slots, k \in 1 .. 3, e \in Entries :
          \/ Insert(s, k, e) \/ Remove(s, k) \/ Clear(s) \/ Write(s, k, e[2])
          \/ \E d \in Slots, a \in Slots, b \in Slots :
               a # b /\ \/ Combine(Union, d, a, b) \/ Combine(Inter, d, a, b)
                        \/ Combine(Diff, d, a, b) \/ Combine(SymDiff, d, a, b)
          \/ \E d \in Slots, incl \in BOOLEAN : d # s /\ Split(s, d, k, incl)
Spec == Init /\ [][Next]_m

(*--- laws the definitions must obey (checked by TLC, guard against a vacuous oracle) ---*)
Laws ==
    \A a \in Slots, b \in Slots :
      LET f == m[a]  g == m[b] IN
        /\ Dom(Union(f, g)) = Dom(f) \cup Dom(g)
        /\ Dom(Inter(f, g)) = Dom(f) \cap Dom(g)
        /\ Dom(Diff(f, g)) = Dom(f) \ Dom(g)
        /\ Dom(SymDiff(f, g)) = (Dom(f) \ Dom(g)) \cup (Dom(g) \ Dom(f))
        /\ SymDiff(f, g) = Union(Diff(f, g), Diff(g, f))
        /\ \A k \in DOMAIN f, incl \in BOOLEAN :
             /\ Union(Below(f, k, incl), Above(f, k, incl)) = f
             /\ Dom(Below(f, k, incl)) \cap Dom(Above(f, k, incl)) = {}
             /\ FloorKey(f, k) # None => FloorKey(f, k)[1] \in Dom(f)
             /\ (FloorKey(f, k) = None) = (\A j \in Dom(f) : j > k)
             /\ (Has(f, k)) = (FloorKey(f, k) = <<k>> /\ CeilKey(f, k) = <<k>>)
=============================================================================
