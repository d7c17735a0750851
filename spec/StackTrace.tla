----------------------------- MODULE StackTrace -----------------------------
(* Accepts exactly the recorded concurrent histories that are linearizable with lengths in bounds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, calls, S
vars == <<h, l, calls, S>>
H == Trace[h]
Ev == H.ev
E == Ev[l]
(* The recorder notes between which events each value was handed out (pc: request made, pr: answered), *)
(* so a configuration with v above a value handed out for sure before v was asked for is hopeless.     *)
TDoomed(cf, v) == \E i \in 1 .. Len(cf.st) : H.pr[cf.st[i]] < H.pc[v]
A == INSTANCE StackAbs WITH Doomed <- TDoomed
TCall == /\ E.e = "call"
         /\ calls' = [t \in DOMAIN calls \union {E.t} |->
                        IF t = E.t THEN [o |-> E.o, v |-> E.v, r |-> E.r] ELSE calls[t]]
         /\ S' = {A!Settle(calls', cf) : cf \in S}
TRet == /\ E.e = "ret"
        /\ LET N == A!Needed(calls, S, E.t) IN
           /\ N # {}
           /\ S' = {[cf EXCEPT !.done = @ \ {E.t}] : cf \in N}
        /\ calls' = [t \in DOMAIN calls \ {E.t} |-> calls[t]]
\* no call in progress: length and contents agree, every element is destroyed once, after it was handed out
TEnd == /\ E.e = "end" /\ DOMAIN calls = {}
        /\ \E cf \in S : /\ E.n = Len(cf.st)
                         /\ Len(E.left) <= Len(cf.st) /\ E.left = SubSeq(cf.st, 1, Len(E.left))
                         /\ (Len(E.left) < E.keep => E.left = cf.st)
                         /\ E.n2 = E.n - Len(E.left)
        /\ \A i \in 1 .. H.total : E.early[i + 1] = 0 /\ E.late[i + 1] = 1
        /\ UNCHANGED <<calls, S>>
TraceInit == /\ h \in 1 .. Len(Trace) /\ l = 1 /\ calls = [t \in {} |-> 0]
             /\ S = {[done |-> {}, st |-> [i \in 1 .. Trace[h].init |-> Trace[h].init + 1 - i]]}
TraceNext == \/ l <= Len(Ev) /\ (TCall \/ TRet \/ TEnd) /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
