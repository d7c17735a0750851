------------------------------- MODULE BpTrace -------------------------------
(***************************************************************************)
(* Accepts exactly the recorded histories of on-disk B+ trees that the     *)
(* abstract map allows.  Closing, abandoning and copying the file between  *)
(* calls never changes the map; the file stays within what the largest     *)
(* number of entries since the last clear needs.                           *)
(***************************************************************************)
EXTENDS OrdMap, BpSpace, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l,
          peak,    \* largest size since creation or the last clear
          page     \* file length at the peak is judged against this bound
vars == <<m, h, l, peak, page>>
H == Trace[h]
Ev == H.ev
E == Ev[l]
A(i) == E.a[i]
F == m[1]
Is(o) == E.o = o
Done == "p" \notin DOMAIN E
Bool(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED m
All(c) == Len(c) = Size(F) /\ IsContents(c, F, Size(F))
NoChange == \/ Is("rem") /\ ~Has(F, A(2))
            \/ Is("ins") /\ Has(F, A(2))

TIns  == Is("ins") /\ E.r = Pair(F, A(2)) /\ Insert(1, A(2), <<A(3), A(4)>>)
TRem  == Is("rem") /\ E.r = Pair(F, A(2)) /\ Remove(1, A(2))
THas  == Is("has") /\ E.r = <<Bool(Has(F, A(2)))>> /\ Same
TGet  == Is("get") /\ E.r = (IF Has(F, A(2)) THEN <<F[A(2)][2]>> ELSE <<>>) /\ Same
TLen  == (Is("len") \/ Is("reopen") \/ Is("kill")) /\ E.r = <<Size(F)>> /\ Same
TEmp  == Is("empty") /\ E.r = <<Bool(Dom(F) = {})>> /\ Same
TClr  == Is("clear") /\ Clear(1)
TMin  == Is("min") /\ E.r = WithId(F, MinKey(F)) /\ Same
TMax  == Is("max") /\ E.r = WithId(F, MaxKey(F)) /\ Same
TIter == /\ Is("iter") /\ IsContents(E.r, F, A(3))
         /\ E.x = (IF A(3) > Size(F) THEN 1 ELSE 2) /\ Same
TCopy == Is("copy") /\ All(E.r) /\ E.n = Size(F) /\ E.e = Bool(Dom(F) = {}) /\ Same
TSweep == /\ Is("sweep") /\ Len(E.h) = H.kmax + 2
          /\ \A k \in 0 .. H.kmax + 1 : /\ E.h[k + 1] = Bool(Has(F, k))
                                        /\ E.g[k + 1] = (IF Has(F, k) THEN F[k][2] ELSE -1)
          /\ E.mn = WithId(F, MinKey(F)) /\ E.mx = WithId(F, MaxKey(F))
          /\ E.n = Size(F) /\ E.e = Bool(Dom(F) = {})
          /\ All(E.r) /\ Same
Refused == ~Done /\ (Is("bigk") \/ Is("bigv")) /\ Same
Step == \/ Done /\ \/ TIns \/ TRem \/ THas \/ TGet \/ TLen \/ TEmp \/ TClr \/ TMin \/ TMax \/ TIter
                   \/ TCopy \/ TSweep
        \/ Refused

\* capacities chosen by the library (0) carry no bound of ours
Bound(p) == H.l0 + (p - 1) * H.pg
Space ==
    /\ peak' = IF Is("clear") THEN 0
               ELSE LET n == IF Is("ins") \/ Is("rem") THEN Size(m'[1]) ELSE peak
                    IN IF n > peak THEN n ELSE peak
    /\ page' = IF peak' = peak THEN page
               ELSE IF H.ld = 0 THEN 1 ELSE MaxPages(peak', H.ld, H.idg)
    /\ IF H.pg = 0 \/ H.ld = 0 THEN TRUE ELSE E.fl <= Bound(page')
    /\ IF Is("clear") THEN E.fl = H.l0 ELSE TRUE

TraceInit == /\ h \in 1 .. Len(Trace) /\ l = 1 /\ m = [s \in {1} |-> Empty(1 .. H.kmax)]
             /\ peak = 0 /\ page = 1
TraceNext == \/ l <= Len(Ev) /\ Step /\ Space /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
