------------------------------ MODULE LsmStore ------------------------------
(***************************************************************************)
(* What a user of the log-structured map may rely on.  `m` is the map, as  *)
(* a function from the present keys to values.  `d` is the set of maps the *)
(* disk may hold: the contents after some prefix of the operations issued  *)
(* since the last completed flush, at least those flushed.                 *)
(* `its` are live iterators: what each has still to yield.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES m, d, its
store == <<m, d, its>>

None == <<>>
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing == [x \in {} |-> 0]
RECURSIVE SortedKeys(_)
SortedKeys(S) == IF S = {} THEN <<>>
                 ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                      IN <<x>> \o SortedKeys(S \ {x})
Contents(f) == LET ks == SortedKeys(DOMAIN f) IN [i \in 1 .. Len(ks) |-> <<ks[i], f[ks[i]]>>]
MinOf(f) == IF DOMAIN f = {} THEN <<>> ELSE <<CHOOSE y \in DOMAIN f : \A z \in DOMAIN f : y <= z>>
MaxOf(f) == IF DOMAIN f = {} THEN <<>> ELSE <<CHOOSE y \in DOMAIN f : \A z \in DOMAIN f : y >= z>>
MapOf(items) == [k \in {items[i][1] : i \in 1 .. Len(items)} |->
                   LET i == CHOOSE j \in 1 .. Len(items) : items[j][1] = k IN items[i][2]]

Init == m = Nothing /\ d = {Nothing} /\ its = [s \in {} |-> <<>>]
Insert(k, v) == m' = Put(m, k, v) /\ d' = d \union {m'} /\ UNCHANGED its
Remove(k)    == m' = Del(m, k) /\ d' = d \union {m'} /\ UNCHANGED its
Flush        == d' = {m} /\ UNCHANGED <<m, its>>
Clear        == m' = Nothing /\ d' = {m'} /\ its' = [s \in {} |-> <<>>]
Open(s)      == its' = [x \in DOMAIN its \union {s} |-> IF x = s THEN Contents(m) ELSE its[x]]
                /\ UNCHANGED <<m, d>>
Next1(s, n)  == its' = [its EXCEPT ![s] = SubSeq(@, n + 1, Len(@))] /\ UNCHANGED <<m, d>>
Close(s)     == its' = [x \in DOMAIN its \ {s} |-> its[x]] /\ UNCHANGED <<m, d>>
\* the process ends, by closing or by a kill, and the store is opened again holding f
Restart(f)   == m' = f /\ d' = {f} /\ its' = [s \in {} |-> <<>>]
\* an operation refused because a file call failed leaves the map f, and may have reached the disk or not
Fails(f) == m' = f /\ d' = d \union {f} /\ UNCHANGED its
\* a refused clearing may have dropped any of the entries
ClearFails(f) == /\ DOMAIN f \subseteq DOMAIN m /\ \A k \in DOMAIN f : f[k] = m[k]
                 /\ m' = f /\ d' = d \union {f, Nothing} /\ its' = [s \in {} |-> <<>>]
\* what an interrupted operation adds to what the disk may hold
Interrupted(po, a) ==
    IF po = "ins" THEN {Put(m, a[1], a[2])}
    ELSE IF po = "rem" THEN {Del(m, a[1])}
    ELSE IF po = "clear" THEN {Nothing}
    ELSE {}
=============================================================================
