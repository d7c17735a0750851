---------------------------- MODULE SkipMapDesign ----------------------------
(***************************************************************************)
(* The design of the skip list as an ordered map: linked levels, searches   *)
(* that start at a level derived from the number of entries, replacement    *)
(* by unlinking the old node while the new one is linked, and set algebra   *)
(* that merges two lists by relinking their nodes.  Heights are chosen by   *)
(* the environment.  Freed addresses are gone from `mem`: reading one is an *)
(* evaluation error.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, CSV
CONSTANTS N, Top, Variant
VARIABLES mem, s, v, n, op     \* mem: address -> <<key, from, links>>; s, v: sets of <<key, from>>; n: the counted lengths
Null == -1
A == 0
B == 100
Heads == {A, B}
Nx(M, a, l) == M[a][3][l + 1]
SetNx(M, a, l, x) == [M EXCEPT ![a][3][l + 1] = x]
Without(M, a) == [b \in DOMAIN M \ {a} |-> M[b]]
RECURSIVE Along(_, _, _, _)      \* last node on this level before k
Along(M, a, l, k) == LET x == Nx(M, a, l) IN IF x # Null /\ M[x][1] < k THEN Along(M, x, l, k) ELSE a
Fresh(M) == CHOOSE a \in 1 .. 2 * N + 1 : a \notin DOMAIN M /\ \A b \in 1 .. a - 1 : b \in DOMAIN M
\* the descent of insertion: on each level unlink an equal key, then link the new node; <<memory, replaced entry or <<>>>>
RECURSIVE Down(_, _, _, _, _, _)
Down(M, a, l, new, hgt, k) ==
    LET c == Along(M, a, l, k)
        x == Nx(M, c, l)
        dup == x # Null /\ M[x][1] = k
        M1 == IF dup THEN SetNx(M, c, l, Nx(M, x, l)) ELSE M
        old == IF dup /\ l = 0 THEN <<M[x][1], M[x][2]>> ELSE <<>>
        M2 == IF dup /\ (l = 0 \/ (Variant = "freetall" /\ l = Len(M[x][3]) - 1)) THEN Without(M1, x) ELSE M1
        M3 == IF new # Null /\ l <= hgt THEN SetNx(SetNx(M2, new, l, Nx(M2, c, l)), c, l, new) ELSE M2
    IN IF l = 0 THEN <<M3, old>> ELSE Down(M3, c, l - 1, new, hgt, k)
InsertInto(M, head, k, f, hgt) ==
    LET a == Fresh(M)
        M1 == [b \in DOMAIN M \union {a} |-> IF b = a THEN <<k, f, [j \in 1 .. hgt + 1 |-> Null]>> ELSE M[b]]
    IN Down(M1, head, Top, a, hgt, k)
RemoveFrom(M, head, k) == Down(M, head, IF Variant = "lowremove" THEN 1 ELSE Top, Null, 0, k)
Bits(x) == CHOOSE b \in 0 .. Top : (x < 2 ^ b \/ b = Top) /\ \A c \in 0 .. b - 1 : x >= 2 ^ c
Start(x) == IF Variant = "starthigh" THEN Top ELSE Bits(x)
RECURSIVE Get(_, _, _, _)
Get(M, a, l, k) == LET c == Along(M, a, l, k)  x == Nx(M, c, l) IN
    IF x # Null /\ M[x][1] = k THEN <<M[x][2]>> ELSE IF l = 0 THEN <<>> ELSE Get(M, c, l - 1, k)
RECURSIVE Before(_, _, _, _)     \* last node with key < k (the head if none)
Before(M, a, l, k) == LET c == Along(M, a, l, k) IN IF l = 0 THEN c ELSE Before(M, c, l - 1, k)
FloorOf(M, head, x, k) == LET c == Before(M, head, Start(x), k + 1) IN IF c = head THEN <<>> ELSE <<M[c][1]>>
CeilOf(M, head, x, k) == LET c == Nx(M, Before(M, head, Start(x), k), 0) IN IF c = Null THEN <<>> ELSE <<M[c][1]>>
\* nodes of a list in order
RECURSIVE Nodes(_, _, _)
Nodes(M, a, l) == IF Nx(M, a, l) = Null THEN <<>> ELSE <<Nx(M, a, l)>> \o Nodes(M, Nx(M, a, l), l)
\* link the given nodes, in order, behind the head
RECURSIVE Relink(_, _, _)
Relink(M, ends, q) ==
    IF q = <<>> THEN M
    ELSE LET a == Head(q)
             h == Len(M[a][3])
             M0 == IF Variant = "oldlinks" THEN M ELSE [M EXCEPT ![a][3] = [j \in 1 .. h |-> Null]]
             RECURSIVE On(_, _)
             On(X, l) == IF l >= h THEN X ELSE On(SetNx(X, ends[l + 1], l, a), l + 1)
         IN Relink(On(M0, 0), [j \in 1 .. Top + 1 |-> IF j <= h THEN a ELSE ends[j]], Tail(q))
\* merge by the rule: keep left of equal keys / right of equal keys / lone left / lone right
RECURSIVE MergeSeq(_, _, _, _, _, _)
MergeSeq(M, p, q, both, lone, other) ==
    IF p = <<>> /\ q = <<>> THEN <<>>
    ELSE IF p # <<>> /\ q # <<>> /\ M[Head(p)][1] = M[Head(q)][1]
    THEN CASE both = "left" -> <<Head(p)>> \o MergeSeq(M, Tail(p), Tail(q), both, lone, other)
           [] both = "right" -> <<Head(q)>> \o MergeSeq(M, Tail(p), Tail(q), both, lone, other)
           [] both = "none" -> MergeSeq(M, Tail(p), Tail(q), both, lone, other)
    ELSE IF q = <<>> \/ (p # <<>> /\ M[Head(p)][1] < M[Head(q)][1])
    THEN (IF lone THEN <<Head(p)>> ELSE <<>>) \o MergeSeq(M, Tail(p), q, both, lone, other)
    ELSE (IF other THEN <<Head(q)>> ELSE <<>>) \o MergeSeq(M, p, Tail(q), both, lone, other)
Rebuilt(M, q) ==
    LET kept == {q[i] : i \in 1 .. Len(q)}
        M1 == [a \in kept \union Heads |-> IF a \in Heads THEN <<0, 0, [j \in 1 .. Top + 1 |-> Null]>> ELSE M[a]]
    IN Relink(M1, [j \in 1 .. Top + 1 |-> A], q)
Dom(q) == {e[1] : e \in q}
At(q, k) == {e \in q : e[1] = k}
Lab(w, a, b) == w \o " " \o ToString(a) \o " " \o ToString(b)
Init == /\ mem = [a \in Heads |-> <<0, 0, [j \in 1 .. Top + 1 |-> Null]>>]
        /\ s = {} /\ v = {} /\ n = <<0, 0>> /\ op = "init"
\* every call answers what the abstract map holds
Insert(k, hgt) ==
    LET r == InsertInto(mem, A, k, 1, hgt) IN
    /\ Assert(r[2] = (IF At(s, k) = {} THEN <<>> ELSE CHOOSE e \in At(s, k) : TRUE), "replaced entry")
    /\ mem' = r[1] /\ s' = (s \ At(s, k)) \union {<<k, 1>>} /\ n' = [n EXCEPT ![1] = @ + (IF r[2] = <<>> THEN 1 ELSE 0)]
    /\ op' = Lab("ins 1", k, hgt) /\ v' = v
Insert2(k, hgt) ==
    LET r == InsertInto(mem, B, k, 2, hgt) IN
    /\ mem' = r[1] /\ v' = (v \ At(v, k)) \union {<<k, 2>>} /\ n' = [n EXCEPT ![2] = @ + (IF r[2] = <<>> THEN 1 ELSE 0)]
    /\ op' = Lab("ins 2", k, hgt) /\ s' = s
Remove(k) ==
    LET r == RemoveFrom(mem, A, k) IN
    /\ mem' = r[1] /\ s' = s \ At(s, k) /\ n' = [n EXCEPT ![1] = @ - (IF r[2] = <<>> THEN 0 ELSE 1)]
    /\ op' = Lab("rem 1", k, 0) /\ v' = v
Alg(w, both, lone, other, set) ==
    LET q == MergeSeq(mem, Nodes(mem, A, 0), Nodes(mem, B, 0), both, lone, other) IN
    /\ mem' = Rebuilt(mem, q) /\ n' = <<Len(q), 0>> /\ s' = set /\ v' = {} /\ op' = w \o " 1 1 2"
Combine == \/ Alg("uni", IF Variant = "rightwins" THEN "right" ELSE "left", TRUE, TRUE, s \union {e \in v : e[1] \notin Dom(s)})
           \/ Alg("int", "left", FALSE, FALSE, {e \in s : e[1] \in Dom(v)})
           \/ Alg("dif", "none", TRUE, FALSE, {e \in s : e[1] \notin Dom(v)})
           \/ Alg("sym", "none", TRUE, TRUE, {e \in s : e[1] \notin Dom(v)} \union {e \in v : e[1] \notin Dom(s)})
Next == \/ \E k \in 1 .. N, hgt \in 0 .. Top : Insert(k, hgt)
        \/ (\A e \in s : e[2] = 1) /\ \E k \in 1 .. N, hgt \in 0 .. Top : Insert2(k, hgt)
        \/ \E k \in 1 .. N : Remove(k)
        \/ (\A e \in s : e[2] = 1) /\ v # {} /\ Combine
Spec == Init /\ [][Next]_<<mem, s, v, n, op>>
\* one list alone
Next1 == \/ \E k \in 1 .. N, hgt \in 0 .. Top : Insert(k, hgt)
         \/ \E k \in 1 .. N : Remove(k)
Spec1 == Init /\ [][Next1]_<<mem, s, v, n, op>>
\* everything but the addresses: a link to a freed node does not evaluate
Linked(head) == [l \in 0 .. Top |-> LET z == Nodes(mem, head, l) IN [i \in 1 .. Len(z) |-> <<mem[z[i]][1], mem[z[i]][2], Len(mem[z[i]][3])>>]]
View == <<Linked(A), Linked(B), Cardinality(DOMAIN mem), s, v, n>>
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(View), op', TLCFP(View')>>, IOEnv.EDGES)
Best(S, least) == IF S = {} THEN <<>> ELSE <<CHOOSE k \in S : \A j \in S : IF least THEN k <= j ELSE j <= k>>
Reads(head, q, x) ==
    /\ x = Cardinality(q)
    /\ LET z == Nodes(mem, head, 0) IN
         /\ Len(z) = x /\ \A i \in 1 .. x : <<mem[z[i]][1], mem[z[i]][2]>> \in q
         /\ \A i \in 1 .. x - 1 : mem[z[i]][1] < mem[z[i + 1]][1]
    /\ \A k \in 0 .. N + 1 :
         /\ Get(mem, head, Start(x), k) = (IF At(q, k) = {} THEN <<>> ELSE <<(CHOOSE e \in At(q, k) : TRUE)[2]>>)
         /\ FloorOf(mem, head, x, k) = Best({j \in Dom(q) : j <= k}, FALSE)
         /\ CeilOf(mem, head, x, k) = Best({j \in Dom(q) : j >= k}, TRUE)
Refines == Reads(A, s, n[1]) /\ Reads(B, v, n[2])
\* each level links exactly the nodes tall enough, in order; no freed node is linked, none is lost
Levels == /\ \A head \in Heads : \A l \in 1 .. Top :
               Nodes(mem, head, l) = SelectSeq(Nodes(mem, head, 0), LAMBDA a : Len(mem[a][3]) > l)
          /\ Cardinality(DOMAIN mem) = 2 + n[1] + n[2]
=============================================================================
