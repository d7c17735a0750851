------------------------------ MODULE ListTrace ------------------------------
(* Accepts exactly the recorded list histories SeqList allows, refused requests included. *)
EXTENDS SeqList, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<q, h, l>>
Ev == Trace[h].ev
E == Ev[l]
A(i) == E.a[i]
F == q[A(1)]
N == Len(F)
Is(o) == E.o = o
Done == "p" \notin DOMAIN E
Bool(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED q

TIns  == Is("ins") /\ Insert(A(1), A(2), A(3))
TPf   == Is("pushf") /\ Insert(A(1), 0, A(2))
TPb   == Is("pushb") /\ Insert(A(1), N, A(2))
TRem  == Is("rem") /\ E.r = At(F, A(2)) /\ Remove(A(1), A(2))
TOf   == Is("popf") /\ E.r = At(F, 0) /\ Remove(A(1), 0)
TOb   == Is("popb") /\ E.r = At(F, N - 1) /\ Remove(A(1), N - 1)
TGet  == Is("get") /\ E.r = At(F, A(2)) /\ Same
TSet  == Is("set") /\ E.r = At(F, A(2)) /\ Write(A(1), A(2), A(3))
TIdx  == Is("idx") /\ A(2) < N /\ E.r = At(F, A(2)) /\ Same
TIdxS == Is("idxset") /\ A(2) < N /\ E.r = At(F, A(2)) /\ Write(A(1), A(2), A(3))
TLen  == Is("len") /\ E.r = <<N>> /\ Same
TEmp  == Is("empty") /\ E.r = <<Bool(N = 0)>> /\ Same
TClr  == (Is("clear") \/ Is("drop")) /\ Clear(A(1))
TCat  == Is("cat") /\ Concat(A(1), A(2), A(3))
TIter == /\ Is("iter") /\ E.r = Pre(F, A(3))
         /\ E.x = (IF A(3) > N THEN 1 ELSE 2)
         /\ CASE A(2) \in {0, 1} -> Same
              [] A(2) \in {2, 3} -> AddAll(A(1), A(3), A(4))
              [] A(2) = 4 -> Clear(A(1))
TSweep == /\ Is("sweep") /\ E.r = F /\ E.n = N /\ E.e = Bool(N = 0)
          /\ Len(E.g) = N + 2 /\ \A i \in 1 .. N : E.g[i] = F[i]
          /\ E.g[N + 1] = -1 /\ E.g[N + 2] = -1 /\ E.big = 0
          /\ Same
\* requests the documentation excludes: refused, nothing changes
Refused == /\ ~Done /\ Same
           /\ IF Is("ins") THEN A(2) > N
              ELSE IF Is("rem") \/ Is("idx") \/ Is("idxset") THEN A(2) >= N
              ELSE IF Is("popf") \/ Is("popb") THEN N = 0
              ELSE FALSE
Step == \/ Done /\ \/ TIns \/ TPf \/ TPb \/ TRem \/ TOf \/ TOb \/ TGet \/ TSet \/ TIdx \/ TIdxS \/ TLen
                   \/ TEmp \/ TClr \/ TCat \/ TIter \/ TSweep
        \/ Refused
TraceInit == h \in 1 .. Len(Trace) /\ l = 1 /\ Init
TraceNext == \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
