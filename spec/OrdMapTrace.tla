---------------------------- MODULE OrdMapTrace -----------------------------
(***************************************************************************)
(* Accepts exactly the recorded histories that OrdMap allows.  Every line  *)
(* of the trace file is one history; histories are independent initial     *)
(* states.  A history TLC cannot follow to its end is a deadlock.          *)
(***************************************************************************)
EXTENDS OrdMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l
vars == <<m, h, l>>

D(x) == 1 .. Trace[x].kmax
Ev == Trace[h].ev
E == Ev[l]
A(i) == E.a[i]
F == m[A(1)]
IsSet == Trace[h].set = 1
Is(o) == E.o = o
Done == "p" \notin DOMAIN E          \* the call returned (did not panic)
Panicked == "p" \in DOMAIN E
Bool(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED m
Op1(x) == IF x = None THEN <<>> ELSE x
Ident(x) == IF x = None THEN -1 ELSE F[x[1]][1]

TIns  == Is("ins") /\ E.r = Pair(F, A(2)) /\ Insert(A(1), A(2), <<A(3), A(4)>>)
TRem  == Is("rem") /\ E.r = Pair(F, A(2)) /\ Remove(A(1), A(2))
THas  == Is("has") /\ E.r = <<Bool(Has(F, A(2)))>> /\ Same
TGet  == Is("get") /\ E.r = (IF Has(F, A(2)) THEN <<F[A(2)][2]>> ELSE <<>>) /\ Same
TSet  == Is("set") /\ E.r = (IF Has(F, A(2)) THEN <<F[A(2)][2]>> ELSE <<>>) /\ Write(A(1), A(2), A(3))
TIdx  == Is("idx") /\ Has(F, A(2)) /\ E.r = <<F[A(2)][2]>> /\ Same
TIdxS == Is("idxset") /\ Has(F, A(2)) /\ E.r = <<F[A(2)][2]>> /\ Write(A(1), A(2), A(3))
TLen  == Is("len") /\ E.r = <<Size(F)>> /\ Same
TEmp  == Is("empty") /\ E.r = <<Bool(Dom(F) = {})>> /\ Same
TClr  == Is("clear") /\ Clear(A(1))
TDrop == Is("drop") /\ Clear(A(1))
TFlo  == Is("flo") /\ E.r = WithId(F, FloorKey(F, A(2))) /\ Same
TCei  == Is("cei") /\ E.r = WithId(F, CeilKey(F, A(2))) /\ Same
TMin  == Is("min") /\ E.r = WithId(F, MinKey(F)) /\ Same
TMax  == Is("max") /\ E.r = WithId(F, MaxKey(F)) /\ Same
\* kinds 0,1 shared; 2,3 mutable (adds A(4)); 4 consuming
TIter == /\ Is("iter")
         /\ IsContents(E.r, F, A(3))
         /\ E.x = (IF A(3) > Size(F) THEN 1 ELSE 2)
         /\ CASE A(2) \in {0, 1} -> Same
              [] A(2) \in {2, 3} -> AddAll(A(1), A(3), A(4))
              [] A(2) = 4 -> Clear(A(1))
TAlg  == \/ (Is("uni") \/ Is("add")) /\ Combine(Union, A(1), A(2), A(3))
         \/ Is("int") /\ Combine(Inter, A(1), A(2), A(3))
         \/ (Is("dif") \/ Is("sub")) /\ Combine(Diff, A(1), A(2), A(3))
         \/ Is("sym") /\ Combine(SymDiff, A(1), A(2), A(3))
TSplit == Is("split") /\ Split(A(1), A(2), A(3), A(4) = 1)
TSweep ==
    /\ Is("sweep")
    /\ LET K == Trace[h].kmax IN
       /\ Len(E.h) = K + 2 /\ Len(E.f) = K + 2 /\ Len(E.c) = K + 2
       /\ \A k \in 0 .. K + 1 :
            /\ E.h[k + 1] = Bool(Has(F, k))
            /\ E.f[k + 1] = Ident(FloorKey(F, k))
            /\ E.c[k + 1] = Ident(CeilKey(F, k))
            /\ ~IsSet => E.g[k + 1] = (IF Has(F, k) THEN F[k][2] ELSE -1)
    /\ E.mn = WithId(F, MinKey(F)) /\ E.mx = WithId(F, MaxKey(F))
    /\ E.n = Size(F) /\ E.e = Bool(Dom(F) = {})
    /\ IsContents(E.r, F, Size(F)) /\ Len(E.r) = Size(F)
    /\ Same

\* calls the documentation excludes: refused, and nothing changes
Refused == /\ Panicked
           /\ (Is("idx") \/ Is("idxset")) /\ ~Has(F, A(2))
           /\ Same

Step == \/ Done /\ \/ TIns \/ TRem \/ THas \/ TGet \/ TSet \/ TIdx \/ TIdxS \/ TLen \/ TEmp
                   \/ TClr \/ TDrop \/ TFlo \/ TCei \/ TMin \/ TMax \/ TIter \/ TAlg \/ TSplit \/ TSweep
        \/ Refused

TraceInit == /\ h \in 1 .. Len(Trace) /\ l = 1
             /\ m = [s \in Slots |-> Empty(D(h))]
TraceNext == \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
