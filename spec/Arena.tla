-------------------------------- MODULE Arena --------------------------------
(***************************************************************************)
(* The abstract arena: slots are named in order of first use.  A slot holds *)
(* a value or is vacant (<<>>); slots never used do not exist.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vals, MaxSlots
VARIABLE sl      \* sequence: slot -> <<value>> or <<>>

Exists(i) == 1 <= i /\ i <= Len(sl)
Read(i)   == IF Exists(i) THEN sl[i] ELSE <<>>
Vacant    == {i \in 1 .. Len(sl) : sl[i] = <<>>}

\* storage grows only when no freed slot is left
Alloc(v, i) == IF Vacant = {} THEN i = Len(sl) + 1 /\ sl' = Append(sl, <<v>>)
               ELSE i \in Vacant /\ sl' = [sl EXCEPT ![i] = <<v>>]
Free(i)     == Read(i) # <<>> /\ sl' = [sl EXCEPT ![i] = <<>>]
Write(i, v) == sl' = IF Read(i) # <<>> THEN [sl EXCEPT ![i] = <<v>>] ELSE sl

Init == sl = <<>>
Next == \E v \in Vals, i \in 1 .. MaxSlots : Alloc(v, i) \/ Free(i) \/ Write(i, v)
Spec == Init /\ [][Next]_sl
Bounded == Len(sl) <= MaxSlots
\* only the slot a call names changes
Local == [][\E i \in 1 .. MaxSlots : \A j \in 1 .. Len(sl) : j # i => sl'[j] = sl[j]]_sl
NeverForgets == [][Len(sl') >= Len(sl)]_sl
=============================================================================
