----------------------------- MODULE Ownership ------------------------------
(***************************************************************************)
(* Where every element handed to an in-memory container is: held by        *)
(* container c (own[c]), with the caller, or destroyed.  Every call obeys  *)
(* one conservation law: what the containers involved held before plus     *)
(* what was given equals what they hold afterwards plus what was returned  *)
(* plus what was destroyed, each element in exactly one place.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Containers
VARIABLES own,        \* container -> set of element identities
          returned,   \* identities the caller got back
          dead        \* identities destroyed

ran(q) == {q[i] : i \in 1 .. Len(q)}
NoDup(q) == Cardinality(ran(q)) = Len(q)
Held(C) == UNION {own[c] : c \in C}

(* gi, rt, dr are sequences (so that repetition is visible); vis maps each container touched to the    *)
(* sequence of identities reachable in it afterwards                                                   *)
RECURSIVE SumLen(_, _)
SumLen(vis, C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE IN Len(vis[c]) + SumLen(vis, C \ {c})
Conserve(vis, gi, rt, dr) ==
    LET C == DOMAIN vis
        before == Held(C)
        after  == UNION {ran(vis[c]) : c \in C}
    IN /\ NoDup(gi) /\ NoDup(rt) /\ NoDup(dr)
       /\ ran(gi) \cap (before \cup returned \cup dead) = {}
       /\ after \cup ran(rt) \cup ran(dr) = before \cup ran(gi)
       /\ SumLen(vis, C) + Len(rt) + Len(dr) = Cardinality(before) + Len(gi)
       /\ own' = [c \in DOMAIN own |-> IF c \in C THEN ran(vis[c]) ELSE own[c]]
       /\ returned' = returned \cup ran(rt)
       /\ dead' = dead \cup ran(dr)

Init == own = [c \in Containers |-> {}] /\ returned = {} /\ dead = {}

(* a small generator so that the law itself is checked: elements 1..4, two containers *)
Elems == 1 .. 4
Fresh == Elems \ (Held(Containers) \cup returned \cup dead)
Give == \E e \in Fresh, c \in Containers :
          \E old \in SUBSET own[c] : Cardinality(old) <= 1 /\
            /\ own' = [own EXCEPT ![c] = (@ \ old) \cup {e}] /\ returned' = returned \cup old /\ dead' = dead
Take == \E c \in Containers : \E e \in own[c] :
          own' = [own EXCEPT ![c] = @ \ {e}] /\ returned' = returned \cup {e} /\ dead' = dead
Wipe == \E c \in Containers :
          own' = [own EXCEPT ![c] = {}] /\ dead' = dead \cup own[c] /\ returned' = returned
Move == \E a \in Containers, b \in Containers : a # b /\ \E S \in SUBSET own[a] :
          /\ own' = [own EXCEPT ![a] = {}, ![b] = @ \cup S]
          /\ dead' = dead \cup (own[a] \ S) /\ returned' = returned
Next == Give \/ Take \/ Wipe \/ Move
Spec == Init /\ [][Next]_<<own, returned, dead>>
Exclusive ==
    /\ returned \cap dead = {}
    /\ \A c \in Containers : own[c] \cap (returned \cup dead) = {}
    /\ \A c, d \in Containers : c # d => own[c] \cap own[d] = {}
Irreversible == [][returned \subseteq returned' /\ dead \subseteq dead']_<<own, returned, dead>>
=============================================================================
