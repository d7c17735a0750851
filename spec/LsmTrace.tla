------------------------------ MODULE LsmTrace ------------------------------
(***************************************************************************)
(* Accepts exactly the recorded histories of log-structured maps that      *)
(* LsmStore allows, with kills and reopenings, and judges the number of    *)
(* tables by LsmSpace once every due compaction has run.                   *)
(***************************************************************************)
EXTENDS LsmStore, LsmSpace, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, seen
vars == <<m, d, its, h, l, seen>>
H == Trace[h]
Ev == H.ev
E == Ev[l]
A(i) == E.a[i]
Is(o) == E.o = o
Done == "p" \notin DOMAIN E
Bool(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED store

TIns == Is("ins") /\ Insert(A(1), A(2))
TRem == Is("rem") /\ Remove(A(1))
THas == Is("has") /\ E.r = <<Bool(Has(m, A(1)))>> /\ Same
TGet == Is("get") /\ E.r = (IF Has(m, A(1)) THEN <<m[A(1)]>> ELSE <<>>) /\ Same
THint == Is("hint") /\ E.r[1] >= Cardinality(DOMAIN m) /\ Same
TLen == Is("len") /\ E.r = <<Cardinality(DOMAIN m)>> /\ Same
TEmpty == Is("empty") /\ E.r = <<Bool(DOMAIN m = {})>> /\ Same
TMin == Is("min") /\ E.r = MinOf(m) /\ Same
TMax == Is("max") /\ E.r = MaxOf(m) /\ Same
TFlush == Is("flush") /\ Flush
TSettle == Is("settle") /\ Flush
           /\ E.d <= (IF H.lv = 1 THEN LeveledTables(H.mc, H.mi, H.gf, Cardinality(seen))
                      ELSE SizeTieredTables(H.mc, Cardinality(seen)))
TTidy == Is("tidy") /\ E.r = Contents(m) /\ E.g = 0 /\ Restart(m)
TClear == Is("clear") /\ E.d = 0 /\ Clear
TSweep == (Is("sweep") \/ Is("iter")) /\ E.r = Contents(m) /\ Same
TIt == Is("it") /\ Open(A(1))
TNx == Is("nx") /\ LET s == A(1) n == Len(E.r) IN
       /\ n <= Len(its[s]) /\ E.r = SubSeq(its[s], 1, n)
       /\ n <= A(2) /\ (n < A(2) => n = Len(its[s]))
       /\ E.x = Bool(n < A(2))
       /\ Next1(s, n)
TItc == Is("itc") /\ Close(A(1))
TReopen == Is("reopen") /\ LET f == MapOf(E.r) IN
           E.r = Contents(f) /\ f \in d /\ Restart(f)
TKill == Is("kill") /\ LET f == MapOf(E.r) IN
         E.r = Contents(f) /\ f \in d \union Interrupted(E.po, E.a) /\ Restart(f)
\* refused because a file call was made to fail: changed entirely or not at all, and nothing else is lost
TErr ==
    CASE Is("ins") -> LET f == IF E.r = <<>> THEN Del(m, A(1)) ELSE Put(m, A(1), E.r[1])
                      IN f \in {m} \union Interrupted("ins", E.a) /\ Fails(f)
      [] Is("rem") -> LET f == IF E.r = <<>> THEN Del(m, A(1)) ELSE Put(m, A(1), E.r[1])
                      IN f \in {m} \union Interrupted("rem", E.a) /\ Fails(f)
      [] Is("clear") -> LET f == MapOf(E.r) IN E.r = Contents(f) /\ ClearFails(f)
      [] Is("nx") -> Close(A(1))
      [] OTHER -> Same
Step == \/ Done /\ "e" \in DOMAIN E /\ TErr
        \/ Done /\ "e" \notin DOMAIN E /\ \/ TIns \/ TRem \/ THas \/ TGet \/ THint \/ TLen \/ TEmpty \/ TMin \/ TMax
                                          \/ TFlush \/ TSettle \/ TTidy \/ TClear \/ TSweep \/ TIt \/ TNx \/ TItc \/ TReopen \/ TKill
Seen == seen' = IF Is("ins") \/ Is("rem") THEN seen \union {A(1)} ELSE seen
TraceInit == h \in 1 .. Len(Trace) /\ l = 1 /\ seen = {} /\ Init
TraceNext == \/ l <= Len(Ev) /\ Step /\ Seen /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
