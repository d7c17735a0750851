------------------------------ MODULE OwnTrace ------------------------------
(* Binds Ownership to recorded histories of every in-memory container, including histories in which *)
(* the elements' own code fails in the middle of calls.                                             *)
EXTENDS Ownership, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l,
    weak    \* collections that were part of a call the element's own code broke off
vars == <<own, returned, dead, h, l, weak>>
Ev == Trace[h].ev
E == Ev[l]
Vis == [c \in {E.vis[i].s : i \in 1 .. Len(E.vis)} |->
          (CHOOSE i \in 1 .. Len(E.vis) : E.vis[i].s = c)]
VisOf == [c \in DOMAIN Vis |-> E.vis[Vis[c]].i]
S1 == E.a[1]
\* calls that only read
Reads == {"has", "get", "set", "idx", "idxset", "len", "empty", "flo", "cei", "min", "max", "sweep", "lp"}
Adds  == {"ins", "pushf", "pushb", "push", "alloc"}
Takes == {"rem", "popf", "popb", "pop", "free"}
Moves == {"uni", "add", "int", "dif", "sub", "sym", "cat", "split"}
Shape ==
    IF E.o \in Reads THEN E.gi = <<>> /\ E.rt = <<>> /\ E.dr = <<>>
    ELSE IF E.o \in Adds THEN
         \* what is replaced comes back; what is given stays
         E.dr = <<>> /\ ran(E.gi) \subseteq ran(VisOf[S1])
    ELSE IF E.o \in Takes THEN E.gi = <<>> /\ E.dr = <<>>
    ELSE IF E.o \in {"clear", "drop"} THEN E.gi = <<>> /\ E.rt = <<>> /\ VisOf[S1] = <<>>
    ELSE IF E.o = "iter" THEN
         IF E.a[2] = 4 THEN E.gi = <<>> /\ VisOf[S1] = <<>>
         ELSE E.gi = <<>> /\ E.rt = <<>> /\ E.dr = <<>>
    ELSE IF E.o \in {"cat"} THEN E.gi = <<>> /\ E.rt = <<>>
         /\ (IF E.a[1] \in {E.a[2], E.a[3]} THEN E.dr = <<>> ELSE ran(E.dr) = own[E.a[1]])
    ELSE IF E.o = "split" THEN E.gi = <<>> /\ E.rt = <<>> /\ ran(E.dr) = own[E.a[2]]
    ELSE IF E.o \in Moves THEN E.gi = <<>> /\ E.rt = <<>>
    ELSE FALSE
\* a call broken off by the element's own code, and everything done later with the collections that were part of it:
\* elements may be lost, but none is destroyed twice, handed out after its destruction, or in two places
Involved == IF E.o \in {"uni", "add", "int", "dif", "sub", "sym", "cat"} THEN {E.a[1], E.a[2], E.a[3]}
            ELSE IF E.o = "split" THEN {E.a[1], E.a[2]} ELSE {S1}
Sound(C) ==
    LET others == Held(DOMAIN own \ C)
        shown  == UNION {ran(VisOf[c]) : c \in C}
    IN /\ NoDup(E.dr) /\ NoDup(E.rt)
       /\ ran(E.dr) \cap (dead \cup returned \cup ran(E.rt) \cup others) = {}
       /\ ran(E.rt) \cap (dead \cup returned \cup others) = {}
       /\ SumLen(VisOf, C) = Cardinality(shown)
       /\ shown \cap (dead \cup returned \cup ran(E.dr) \cup ran(E.rt) \cup others) = {}
       /\ (shown \cup ran(E.dr) \cup ran(E.rt)) \subseteq 1 .. E.top
       /\ own' = [c \in DOMAIN own |-> IF c \in C THEN ran(VisOf[c]) ELSE own[c]]
       /\ returned' = returned \cup ran(E.rt)
       /\ dead' = dead \cup ran(E.dr)
Broken == /\ "vis" \in DOMAIN E /\ (E.b = 1 \/ Involved \cap weak # {})
          /\ \A c \in DOMAIN Vis \ Involved : ran(VisOf[c]) = own[c]      \* the others are as they were
          /\ Sound(Involved) /\ weak' = weak \cup Involved
Loose == /\ E.o = "drop" => VisOf[S1] = <<>>
         /\ Sound(DOMAIN Vis)
         /\ weak' = IF E.o = "drop" THEN weak \ {S1} ELSE weak \cup DOMAIN Vis
Step == IF "p" \in DOMAIN E THEN Broken
        ELSE IF DOMAIN Vis \cap weak # {} THEN Loose
        ELSE Conserve(VisOf, E.gi, E.rt, E.dr) /\ Shape /\ weak' = weak
TraceInit == h \in 1 .. Len(Trace) /\ l = 1 /\ Init /\ weak = {}
TraceNext == \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ h' = h
             \/ l > Len(Ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
