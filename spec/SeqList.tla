------------------------------- MODULE SeqList -------------------------------
(* The abstract sequence every positional list of the library must refine.  Positions are 0-based. *)
EXTENDS Integers, Sequences

CONSTANTS Slots, Vals, MaxLen
VARIABLE q      \* q[s] : the sequence held by collection s

InsAt(f, i, v) == SubSeq(f, 1, i) \o <<v>> \o SubSeq(f, i + 1, Len(f))
RemAt(f, i)    == SubSeq(f, 1, i) \o SubSeq(f, i + 2, Len(f))
SetAt(f, i, v) == [f EXCEPT ![i + 1] = v]
At(f, i)       == IF 0 <= i /\ i < Len(f) THEN <<f[i + 1]>> ELSE <<>>
Pre(f, n)      == IF n < Len(f) THEN SubSeq(f, 1, n) ELSE f

Insert(s, i, v) == /\ 0 <= i /\ i <= Len(q[s]) /\ q' = [q EXCEPT ![s] = InsAt(@, i, v)]
Remove(s, i)    == /\ 0 <= i /\ i < Len(q[s]) /\ q' = [q EXCEPT ![s] = RemAt(@, i)]
Write(s, i, v)  == q' = [q EXCEPT ![s] = IF 0 <= i /\ i < Len(@) THEN SetAt(@, i, v) ELSE @]
Clear(s)        == q' = [q EXCEPT ![s] = <<>>]
AddAll(s, n, d) == q' = [q EXCEPT ![s] = [i \in 1 .. Len(@) |-> IF i <= n THEN @[i] + d ELSE @[i]]]
Concat(d, a, b) == q' = [s \in DOMAIN q |-> IF s = d THEN q[a] \o q[b]
                                            ELSE IF s \in {a, b} THEN <<>> ELSE q[s]]

Init == q = [s \in Slots |-> <<>>]
Next == \E s \in Slots, v \in Vals, i \in 0 .. MaxLen :
          \/ Len(q[s]) < MaxLen /\ Insert(s, i, v)
          \/ Remove(s, i) \/ Write(s, i, v) \/ Clear(s)
          \/ \E a \in Slots, b \in Slots : a # b /\ Len(q[a]) + Len(q[b]) <= MaxLen /\ Concat(s, a, b)
Spec == Init /\ [][Next]_q

Laws ==
  \A s \in Slots : LET f == q[s] IN
    \A i \in 0 .. MaxLen, v \in Vals :
      /\ i <= Len(f) => /\ Len(InsAt(f, i, v)) = Len(f) + 1
                        /\ RemAt(InsAt(f, i, v), i) = f
                        /\ At(InsAt(f, i, v), i) = <<v>>
                        /\ \A j \in 0 .. Len(f) - 1 :
                             At(InsAt(f, i, v), IF j < i THEN j ELSE j + 1) = At(f, j)
      /\ i < Len(f) => /\ InsAt(RemAt(f, i), i, f[i + 1]) = f
                       /\ SetAt(f, i, v) = InsAt(RemAt(f, i), i, v)
      /\ i >= Len(f) => At(f, i) = <<>>
=============================================================================
