------------------------------- MODULE SkipSeq -------------------------------
(***************************************************************************)
(* The design of the skip list as a sequence: every node has links on the   *)
(* levels 0..height, every link knows how many positions it spans, and the  *)
(* links of the last nodes span to the end of the list.  Heights are chosen *)
(* by the environment.  Nodes live at addresses; address 0 is the first     *)
(* list's head, Base the second list's.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, CSV
CONSTANTS Size,      \* longest list
          Top,       \* highest level
          Variant
VARIABLES mem, s, s2, op   \* mem: address -> <<value, links>>; s, s2: the abstract sequences
Null == -1
Levels == 0 .. Top
Base == 100
Heads == {0, Base}
\* links are a sequence over levels, link = <<next, distance>>
Lk(M, a, l) == M[a][2][l + 1]
SetLk(M, a, l, x) == [M EXCEPT ![a][2][l + 1] = x]
AddDist(M, a, l, d) == [M EXCEPT ![a][2][l + 1][2] = @ + d]
\* follow level l while the links stay within i positions: <<node, positions left, positions passed>>
RECURSIVE Along(_, _, _, _, _)
Along(M, a, l, i, p) ==
    IF Lk(M, a, l)[1] # Null /\ Lk(M, a, l)[2] <= i
    THEN Along(M, Lk(M, a, l)[1], l, i - Lk(M, a, l)[2], p + Lk(M, a, l)[2])
    ELSE <<a, i, p>>
\* places where the descent for position i leaves each level: sequence over levels of <<node, passed there>>
RECURSIVE Descend(_, _, _, _)
Descend(M, a, l, i) ==
    LET w == Along(M, a, l, i, 0) IN
    IF l = 0 THEN <<<<w[1], w[3]>>>>
    ELSE Append(Descend(M, w[1], l - 1, w[2]), <<w[1], w[3]>>)
RECURSIVE Sum(_, _)
Sum(path, l) == IF l < 0 THEN 0 ELSE path[l + 1][2] + Sum(path, l - 1)
Fresh(M) == CHOOSE a \in 1 .. 2 * Size + 2 : a \notin DOMAIN M /\ \A b \in 1 .. a - 1 : b \in DOMAIN M
Length(M, q) == Len(q)
RECURSIVE Fill(_, _, _, _)      \* repair the spans above level 0
Fill(M, path, n, l) ==
    IF l > Top THEN M
    ELSE LET below == Sum(path, l - 1)  last == path[l + 1][1] IN
         Fill(IF l < Len(M[n][2])
              THEN AddDist(SetLk(M, last, l, <<n, below + 1>>), n, l, -below)
              ELSE IF Variant = "shortspan" THEN M ELSE AddDist(M, last, l, 1), path, n, l + 1)
RECURSIVE Thread(_, _, _, _)    \* put the node into the levels it reaches
Thread(M, path, n, l) ==
    IF l > Top \/ l >= Len(M[n][2]) THEN M
    ELSE LET last == path[l + 1][1] IN
         Thread(SetLk(SetLk(M, n, l, Lk(M, last, l)), last, l, <<n, 1>>), path, n, l + 1)
InsertAt(M, head, i, v, hgt) ==
    LET path == Descend(M, head, Top, i)
        n == Fresh(M)
        M1 == [a \in DOMAIN M \union {n} |-> IF a = n THEN <<v, [j \in 1 .. hgt + 1 |-> <<Null, 0>>]>> ELSE M[a]]
    IN Fill(Thread(M1, path, n, 0), path, n, 1)
\* removal unlinks on the way down; <<memory, value>>
RECURSIVE Unlink(_, _, _, _)
Unlink(M, a, l, i) ==
    LET w == Along(M, a, l, i, 0)
        c == w[1]  k == Lk(M, c, l)
    IN IF k[1] # Null /\ k[2] = w[2] + 1
       THEN LET z == Lk(M, k[1], l)
                M1 == SetLk(M, c, l, <<z[1], z[2] + k[2] - (IF Variant = "spanoff" THEN 0 ELSE 1)>>)
            IN IF l = 0 THEN <<[b \in DOMAIN M1 \ {k[1]} |-> M1[b]], M[k[1]][1]>>
               ELSE Unlink(M1, c, l - 1, w[2])
       ELSE Unlink(IF Variant = "nullspan" /\ k[1] = Null THEN M ELSE AddDist(M, c, l, -1), c, l - 1, w[2])
\* last node on every level, for joining; <<node per level>>
RECURSIVE Ends(_, _, _)
Ends(M, a, l) ==
    LET RECURSIVE Run(_)
        Run(b) == IF Lk(M, b, l)[1] = Null THEN b ELSE Run(Lk(M, b, l)[1])
        e == Run(a)
    IN IF l = 0 THEN <<e>> ELSE Append(Ends(M, e, l - 1), e)
RECURSIVE Splice(_, _, _)
Splice(M, ends, l) ==
    IF l > Top THEN M
    ELSE LET x == Lk(M, ends[l + 1], l)  y == Lk(M, Base, l) IN
         Splice(SetLk(M, ends[l + 1], l, <<y[1], y[2] + (IF Variant = "joinspan" /\ y[1] = Null THEN 0 ELSE x[2])>>), ends, l + 1)
Joined(M) == LET M1 == Splice(M, Ends(M, 0, Top), 0) IN
             [M1 EXCEPT ![Base] = <<0, [j \in 1 .. Top + 1 |-> <<Null, 0>>]>>]
RECURSIVE Get(_, _, _, _)
Get(M, a, l, i) ==
    LET w == Along(M, a, l, i, 0)  k == Lk(M, w[1], l) IN
    IF k[1] # Null /\ k[2] = w[2] + 1 THEN <<M[k[1]][1]>>
    ELSE IF l = 0 THEN <<>> ELSE Get(M, w[1], l - 1, w[2])
RECURSIVE Content(_, _, _)
Content(M, a, l) == IF Lk(M, a, l)[1] = Null THEN <<>>
                    ELSE <<M[Lk(M, a, l)[1]][1]>> \o Content(M, Lk(M, a, l)[1], l)
Place(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))
Without(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
FreshVal == CHOOSE v \in 1 .. 2 * Size : (\A i \in 1 .. Len(s) : s[i] # v) /\ (\A i \in 1 .. Len(s2) : s2[i] # v)
              /\ \A w \in 1 .. v - 1 : (\E i \in 1 .. Len(s) : s[i] = w) \/ (\E i \in 1 .. Len(s2) : s2[i] = w)

Init == /\ mem = [a \in Heads |-> <<0, [j \in 1 .. Top + 1 |-> <<Null, 0>>]>>]
        /\ s = <<>> /\ s2 = <<>> /\ op = "init"
Lab(w, a, b) == w \o " " \o ToString(a) \o " " \o ToString(b)
Insert == Len(s) + Len(s2) < Size /\ \E i \in 0 .. Len(s), hgt \in Levels :
             /\ mem' = InsertAt(mem, 0, i, FreshVal, hgt) /\ s' = Place(s, i, FreshVal) /\ s2' = s2
             /\ op' = Lab("ins 1", i, hgt)
Push2 == Len(s) + Len(s2) < Size /\ \E hgt \in Levels :
             /\ mem' = InsertAt(mem, Base, Len(s2), FreshVal, hgt) /\ s2' = Append(s2, FreshVal) /\ s' = s
             /\ op' = Lab("ins 2", Len(s2), hgt)
Remove == \E i \in 0 .. Len(s) - 1 :
             /\ mem' = Unlink(mem, 0, Top, i)[1] /\ s' = Without(s, i) /\ s2' = s2 /\ op' = Lab("rem 1", i, 0)
Concat == /\ s2 # <<>> /\ mem' = Joined(mem) /\ s' = s \o s2 /\ s2' = <<>> /\ op' = "cat 1 1 2"
Next == Insert \/ Push2 \/ Remove \/ Concat
Spec == Init /\ [][Next]_<<mem, s, s2, op>>
\* what matters: the heights in order and the spans; addresses and values do not
RECURSIVE Shape(_, _)
Shape(M, a) == <<[j \in 1 .. Len(M[a][2]) |-> M[a][2][j][2]]>> \o
               (IF Lk(M, a, 0)[1] = Null THEN <<>> ELSE Shape(M, Lk(M, a, 0)[1]))
ViewOf(head, q) == <<Shape(mem, head), [l \in 0 .. Top |-> Len(Content(mem, head, l))], Content(mem, head, 0) = q>>
View == <<ViewOf(0, s), ViewOf(Base, s2)>>
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(View), op', TLCFP(View')>>, IOEnv.EDGES)

Reads(head, q) == /\ Content(mem, head, 0) = q
                  /\ \A i \in 0 .. Len(q) + 1 : Get(mem, head, Top, i) = (IF i < Len(q) THEN <<q[i + 1]>> ELSE <<>>)
Refines == Reads(0, s) /\ Reads(Base, s2)
\* every link spans exactly the positions between its ends
Spans == \A head \in Heads : LET q == IF head = 0 THEN s ELSE s2 IN
    \A l \in 1 .. Top : LET RECURSIVE Ok(_, _)
        Ok(a, at) == LET k == Lk(mem, a, l) IN
            IF k[1] = Null THEN k[2] = Len(q) - at
            ELSE /\ at + k[2] <= Len(q) /\ k[2] >= 1 /\ q[at + k[2]] = mem[k[1]][1] /\ Ok(k[1], at + k[2])
        IN Ok(head, 0)
=============================================================================
