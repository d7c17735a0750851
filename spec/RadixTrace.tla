------------------------------ MODULE RadixTrace -----------------------------
(* Accepts exactly the recorded histories of radix maps and sets RadixMap allows. *)
EXTENDS RadixMap, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<m, h, l>>
Ev == Trace[h].ev
E == Ev[l]
A(i) == E.a[i]
Is(o) == E.o = o
Done == "p" \notin DOMAIN E
IsSet == Trace[h].set = 1
V(i) == IF IsSet THEN 0 ELSE A(i)
Bool(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED m
Probe == Trace[h].pk
N == Cardinality(Stored)
TIns  == Is("ins") /\ E.r = Pair(E.k) /\ Insert(E.k, V(2))
TRem  == Is("rem") /\ E.r = Pair(E.k) /\ Remove(E.k)
THas  == Is("has") /\ E.r = <<Bool(Has(E.k))>> /\ Same
TGet  == Is("get") /\ E.r = Val(E.k) /\ Same
TSet  == Is("set") /\ E.r = Val(E.k) /\ Write(E.k, A(2))
TIdx  == Is("idx") /\ Has(E.k) /\ E.r = Val(E.k) /\ Same
TIdxS == Is("idxset") /\ Has(E.k) /\ E.r = Val(E.k) /\ Write(E.k, A(2))
TLen  == Is("len") /\ E.r = <<N>> /\ Same
TEmp  == Is("empty") /\ E.r = <<Bool(N = 0)>> /\ Same
TClr  == (Is("clear") \/ Is("drop")) /\ Clear
TMin  == Is("min") /\ E.r = Least(Stored) /\ Same
TMax  == Is("max") /\ E.r = Greatest(Stored) /\ Same
TLp   == Is("lp") /\ LET B == Best(E.k) IN IsListing(E.r, B, Cardinality(B)) /\ Same
ValuesOk == Len(E.rv) = Len(E.r) /\ \A i \in 1 .. Len(E.r) : E.rv[i] = m[E.r[i]]
TIter == /\ Is("iter") /\ IsListing(E.r, Stored, A(3)) /\ ValuesOk
         /\ E.x = (IF A(3) > N THEN 1 ELSE 2)
         /\ CASE A(2) \in {0, 1} -> Same
              [] A(2) \in {2, 3} -> AddAll(A(3), A(4))
              [] A(2) = 4 -> Clear
TSweep == /\ Is("sweep") /\ IsListing(E.r, Stored, N) /\ ValuesOk
          /\ E.n = N /\ E.e = Bool(N = 0) /\ E.mn = Least(Stored) /\ E.mx = Greatest(Stored)
          /\ Len(E.h) = Len(Probe)
          /\ \A i \in 1 .. Len(Probe) :
               /\ E.h[i] = Bool(Has(Probe[i]))
               /\ ~IsSet => E.g[i] = (IF Has(Probe[i]) THEN m[Probe[i]] ELSE -1)
          /\ Same
Refused == ~Done /\ (Is("idx") \/ Is("idxset")) /\ ~Has(E.k) /\ Same
Step == \/ Done /\ \/ TIns \/ TRem \/ THas \/ TGet \/ TSet \/ TIdx \/ TIdxS \/ TLen \/ TEmp \/ TClr
                   \/ TMin \/ TMax \/ TLp \/ TIter \/ TSweep
        \/ Refused
TraceInit == h \in 1 .. Len(Trace) /\ l = 1 /\ Init
TraceNext == \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
