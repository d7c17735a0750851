------------------------------ MODULE ArenaTrace -----------------------------
(* Accepts exactly the recorded arena histories Arena allows.  Slot 0 is a handle never issued. *)
EXTENDS Arena, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<sl, h, l>>
Ev == Trace[h].ev
E == Ev[l]
A(i) == E.a[i]
Is(o) == E.o = o
Done == "p" \notin DOMAIN E
Same == UNCHANGED sl
Live == Read(A(1)) # <<>>
TAlloc == Is("alloc") /\ Alloc(A(1), E.r[1])
TFree  == Is("free") /\ E.r = Read(A(1)) /\ Free(A(1))
TGet   == Is("get") /\ E.r = Read(A(1)) /\ Same
TSet   == Is("set") /\ E.r = Read(A(1)) /\ Write(A(1), A(2))
TIdx   == Is("idx") /\ Live /\ E.r = Read(A(1)) /\ Same
TIdxS  == Is("idxset") /\ Live /\ E.r = Read(A(1)) /\ Write(A(1), A(2))
TSweep == /\ Is("sweep") /\ E.bad = 0 /\ Len(E.r) = Len(sl)
          /\ \A i \in 1 .. Len(sl) : E.r[i] = (IF sl[i] = <<>> THEN -1 ELSE sl[i][1])
          /\ Same
TDrop  == Is("drop") /\ sl' = <<>>
Refused == ~Done /\ (Is("free") \/ Is("idx") \/ Is("idxset")) /\ ~Live /\ Same
Step == \/ Done /\ (TAlloc \/ TFree \/ TGet \/ TSet \/ TIdx \/ TIdxS \/ TSweep \/ TDrop)
        \/ Refused
TraceInit == h \in 1 .. Len(Trace) /\ l = 1 /\ Init
TraceNext == \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
