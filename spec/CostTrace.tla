------------------------------ MODULE CostTrace ------------------------------
(* Accepts exactly the recorded costs CostLaw allows. *)
EXTENDS CostLaw, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<h, l>>
H == Trace[h]
E == H.ev[l]
Is(o) == E.o = o
Per == H.per[E.w]
TProbe == /\ Is("probe")
          /\ E.mx <= Per * Worst(H.im, E.n)
          /\ E.sm <= E.ct * Per * Mean(H.im, E.n)
TWork == /\ Is("work")
         /\ E.sm <= H.per[1] * Work(H.im, E.n, E.ops)
         /\ E.sm1 <= H.per[1] * Work(H.im, E.n1, E.ops1)
TSteps == Is("steps") /\ StepsOk(E.n, E.sm, E.n0, E.sm0)
TraceInit == h \in 1 .. Len(Trace) /\ l = 1
TraceNext == \/ l <= Len(H.ev) /\ (TProbe \/ TWork \/ TSteps) /\ l' = l + 1 /\ h' = h
             \/ l > Len(H.ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
