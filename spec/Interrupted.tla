----------------------------- MODULE Interrupted -----------------------------
(***************************************************************************)
(* A skip list whose elements' own code - comparisons, destructors - may    *)
(* fail at any point of any call.  The failing call is abandoned where it   *)
(* stands, its locals are dropped, and the collections go on being used.    *)
(* Elements may be lost by that; none may be destroyed twice, and nothing   *)
(* that was freed or destroyed may still be linked.                         *)
(* mem: address -> <<key, element alive, links>>; freed addresses are gone  *)
(* from it, so reading one is an evaluation error.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, CSV
CONSTANTS N, Top, P, Cap, Variant
VARIABLES mem, op
Null == -1
A == 0
B == 100
R == 200
Heads == {A, B}
Empty == <<0, TRUE, [j \in 1 .. Top + 1 |-> Null]>>
Nx(M, a, l) == M[a][3][l + 1]
SetNx(M, a, l, x) == [M EXCEPT ![a][3][l + 1] = x]
Without(M, a) == [b \in DOMAIN M \ {a} |-> M[b]]
With(M, a, x) == [b \in DOMAIN M \union {a} |-> IF b = a THEN x ELSE M[b]]
Free(M) == (1 .. Cap) \ DOMAIN M
Fresh(M) == CHOOSE a \in Free(M) : \A b \in 1 .. a - 1 : b \in DOMAIN M
Left(b) == IF b = 0 THEN 0 ELSE b - 1        \* calls of the element's code until the one that fails (0: none does)
Alive(M, a) == Assert(M[a][2], "an element that was destroyed or moved is used")
\* the descent of insertion and removal: <<memory, failed>>
RECURSIVE Down(_, _, _, _, _, _, _)
Down(M, a, l, new, hgt, k, b) ==
    LET x == Nx(M, a, l) IN
    IF x # Null /\ Alive(M, x) /\ b = 1 THEN <<M, TRUE>>
    ELSE IF x # Null /\ M[x][1] < k THEN Down(M, x, l, new, hgt, k, Left(b))
    ELSE LET b1 == IF x = Null THEN b ELSE Left(b) IN
         IF x # Null /\ b1 = 1 THEN <<M, TRUE>>
         ELSE LET b2 == IF x = Null THEN b1 ELSE Left(b1)
                  dup == x # Null /\ M[x][1] = k
                  M1 == IF dup THEN SetNx(M, a, l, Nx(M, x, l)) ELSE M
                  out == dup /\ l = 0
                  M2 == IF out THEN Without(M1, x) ELSE M1
                  M3 == IF new # Null /\ l <= hgt THEN SetNx(SetNx(M2, new, l, Nx(M2, a, l)), a, l, new) ELSE M2
              IN IF l = 0 THEN <<M3, FALSE>> ELSE Down(M3, a, l - 1, new, hgt, k, b2)
\* free a chain: destroy, then release; an element whose destructor fails is destroyed, its memory kept
RECURSIVE Chain(_, _, _)
Chain(M, a, b) ==
    IF a = Null THEN <<M, FALSE>>
    ELSE IF Alive(M, a) /\ b = 1 THEN <<[M EXCEPT ![a][2] = FALSE], TRUE>>
    ELSE Chain(Without(M, a), Nx(M, a, 0), Left(b))
Emptied(M, h) == With(M, h, Empty)
Wipe(M, h, p) ==
    IF Variant = "linksleft"
    THEN LET r == Chain(M, Nx(M, h, 0), p) IN IF r[2] THEN r ELSE <<Emptied(r[1], h), FALSE>>
    ELSE Chain(Emptied(M, h), Nx(M, h, 0), p)
\* the first n elements are moved out, the rest is dropped
RECURSIVE TakeN(_, _, _, _)
TakeN(M, a, i, p) == IF i = 0 \/ a = Null THEN Chain(M, a, p)
                     ELSE IF Alive(M, a) THEN TakeN(Without(M, a), Nx(M, a, 0), i - 1, p) ELSE <<M, FALSE>>
Into(M, h, i, p) == TakeN(Emptied(M, h), Nx(M, h, 0), i, p)
\* unwinding drops a collection whose head stands at node a: a is released, what follows is destroyed
DropAt(M, a) == IF a = Null THEN (IF Variant = "nullhead" /\ Assert(FALSE, "the head is missing") THEN M ELSE M)
                ELSE Chain(Without(M, a), Nx(M, a, 0), 0)[1]
Abandon(M, la, lb) ==
    LET M1 == Chain(M, Nx(M, R, 0), 0)[1]
    IN IF Variant = "keepoperand" THEN Chain(Chain(M1, Nx(M1, B, 0), 0)[1], Nx(M1, A, 0), 0)[1] ELSE DropAt(DropAt(M1, lb), la)
\* which nodes a combination keeps: equal keys, lone left, lone right
Keep(w) == CASE w = "uni" -> <<"left", TRUE, TRUE>> [] w = "int" -> <<"left", FALSE, FALSE>>
             [] w = "dif" -> <<"none", TRUE, FALSE>> [] w = "sym" -> <<"none", TRUE, TRUE>>
RECURSIVE Relink(_, _, _, _)
Relink(M, ends, a, l) == IF l >= Len(M[a][3]) THEN M ELSE Relink(SetNx(M, ends[l + 1], l, a), ends, a, l + 1)
RECURSIVE Mg(_, _, _, _, _, _)
Mg(M, w, la, lb, ends, b) ==
    LET append(a, la1, lb1, b1) ==
            LET h == Len(M[a][3])
                M0 == [M EXCEPT ![a][3] = [j \in 1 .. h |-> Null]]
            IN Mg(Relink(M0, ends, a, 0), w, la1, lb1, [j \in 1 .. Top + 1 |-> IF j <= h THEN a ELSE ends[j]], b1)
        lose(a, la1, lb1, b1) ==
            IF Alive(M, a) /\ b1 = 1 THEN <<Abandon([M EXCEPT ![a][2] = FALSE], la1, lb1), TRUE>>
            ELSE Mg(Without(M, a), w, la1, lb1, ends, Left(b1))
        na == Nx(M, la, 0)
        nb == Nx(M, lb, 0)
    IN IF la = Null /\ lb = Null THEN <<M, FALSE>>
       ELSE IF la # Null /\ lb # Null
       THEN IF Alive(M, la) /\ Alive(M, lb) /\ b = 1
            THEN <<Abandon(M, la, lb), TRUE>>
            ELSE LET c == Left(b) IN
                 IF M[la][1] < M[lb][1] THEN (IF Keep(w)[2] THEN append(la, na, lb, c) ELSE lose(la, na, lb, c))
                 ELSE IF M[la][1] > M[lb][1] THEN (IF Keep(w)[3] THEN append(lb, la, nb, c) ELSE lose(lb, la, nb, c))
                 ELSE IF w = "uni" THEN lose(lb, la, nb, c)
                 ELSE IF w = "int"
                 THEN (IF Alive(M, lb) /\ c = 1 THEN <<Abandon([M EXCEPT ![lb][2] = FALSE], na, nb), TRUE>>
                       ELSE LET h == Len(M[la][3])
                                M0 == [Without(M, lb) EXCEPT ![la][3] = [j \in 1 .. h |-> Null]]
                            IN Mg(Relink(M0, ends, la, 0), w, na, nb, [j \in 1 .. Top + 1 |-> IF j <= h THEN la ELSE ends[j]], Left(c)))
                 ELSE (IF Alive(M, la) /\ c = 1 THEN <<Abandon([M EXCEPT ![la][2] = FALSE], na, lb), TRUE>>
                       ELSE IF Alive(M, lb) /\ Left(c) = 1 THEN <<Abandon([Without(M, la) EXCEPT ![lb][2] = FALSE], na, nb), TRUE>>
                       ELSE Mg(Without(Without(M, la), lb), w, na, nb, ends, Left(Left(c))))
       ELSE IF lb = Null THEN (IF Keep(w)[2] THEN append(la, na, Null, b) ELSE lose(la, na, Null, b))
       ELSE (IF Keep(w)[3] THEN append(lb, Null, nb, b) ELSE lose(lb, Null, nb, b))
Merged(M, w, p) ==
    LET r == Mg(With(M, R, Empty), w, Nx(M, A, 0), Nx(M, B, 0), [j \in 1 .. Top + 1 |-> R], p)
    IN IF r[2] THEN <<Emptied(Emptied(r[1], A), B), TRUE>> ELSE <<Without(Emptied(With(r[1], A, r[1][R]), B), R), FALSE>>
\* what can still be reached: a node found on some level is left through its links of that level and below; everything else is lost
Linked(M) ==
    LET RECURSIVE Go(_)
        Go(T) == LET Z == T \union UNION {{<<M[t[1]][3][j + 1], j>> : j \in 0 .. t[2]} : t \in {x \in T : x[1] # Null}} IN IF T = Z THEN T ELSE Go(Z)
    IN {t \in Go({<<h, Top>> : h \in Heads}) : t[1] # Null}
Kept(M) ==
    LET L == Linked(M) IN
    [a \in {t[1] : t \in L} |-> <<M[a][1], M[a][2], [j \in 1 .. Len(M[a][3]) |-> IF \E t \in L : t[1] = a /\ t[2] >= j - 1 THEN M[a][3][j] ELSE Null]>>]
Lab(w, a, b, c, p) == w \o " " \o ToString(a) \o " " \o ToString(b) \o " " \o ToString(c) \o " " \o ToString(p)
Do(r, p, lab) == r[2] = (p > 0) /\ mem' = Kept(r[1]) /\ op' = lab
Init == mem = [a \in Heads |-> Empty] /\ op = "init"
S(h) == IF h = A THEN 1 ELSE 2
Next == \E p \in 0 .. P :
    \/ \E h \in Heads :
        \/ \E k \in 1 .. N, t \in 0 .. Top : Free(mem) # {} /\
             LET a == Fresh(mem) IN Do(Down(With(mem, a, <<k, TRUE, [j \in 1 .. t + 1 |-> Null]>>), h, Top, a, t, k, p), p, Lab("ins", S(h), k, t, p))
        \/ \E k \in 1 .. N : Do(Down(mem, h, Top, Null, 0, k, p), p, Lab("rem", S(h), k, 0, p))
        \/ Do(Wipe(mem, h, p), p, Lab("clr", S(h), 0, 0, p))
        \/ \E i \in 0 .. 2 : Do(Into(mem, h, i, p), p, Lab("itr", S(h), i, 0, p))
    \/ \E w \in {"uni", "int", "dif", "sym"} : Do(Merged(mem, w, p), p, Lab(w, 1, 2, 0, p))
Spec == Init /\ [][Next]_<<mem, op>>
View == mem
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(View), op', TLCFP(View')>>, IOEnv.EDGES)
\* whatever is linked, on any level, is allocated and holds a live element
Sound == \A a \in DOMAIN mem : mem[a][2] /\ \A j \in 1 .. Len(mem[a][3]) : mem[a][3][j] = Null \/ mem[a][3][j] \in DOMAIN mem
=============================================================================
