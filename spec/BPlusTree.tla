----------------------------- MODULE BPlusTree -----------------------------
(***************************************************************************)
(* The design of the on-disk B+ tree: a file of pages, each a leaf (linked  *)
(* to the next leaf), an inner node or a freed page threaded on a list, and *)
(* a header with the root, the first freed page and the number of entries.  *)
(* Every call leaves all of it in the file, so reopening is a no-op.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BpSpace, TLC, TLCExt, IOUtils, CSV
CONSTANTS N, LD, ID, Variant
VARIABLES f, s, peak, op    \* f: the file; s: the set of keys it holds; peak: the largest size since the last clear
No == 0
Leaf(ks, nx) == <<"leaf", ks, nx>>
Inner(ks, ps) == <<"inner", ks, ps>>
Pg(F, p) == F.pages[p]
Kind(F, p) == Pg(F, p)[1]
Ks(F, p) == Pg(F, p)[2]
Ps(F, p) == Pg(F, p)[3]
Put(F, p, x) == [F EXCEPT !.pages[p] = x]
\* <<file, page>>
Alloc(F, x) == IF F.free = No THEN <<[F EXCEPT !.pages = Append(@, x)], Len(F.pages) + 1>>
               ELSE <<Put([F EXCEPT !.free = IF Variant = "freelost" THEN No ELSE Pg(F, F.free)[2]], F.free, x), F.free>>
Dealloc(F, p) == IF Variant = "nofree" THEN Put(F, p, <<"free", No>>)
                 ELSE [Put(F, p, <<"free", F.free>>) EXCEPT !.free = p]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : \A y \in S : x <= y IN <<a>> \o Sorted(S \ {a})
SetOf(q) == {q[i] : i \in DOMAIN q}
From(q, i) == SubSeq(q, i, Len(q))
Upto(q, i) == SubSeq(q, 1, i)
InsAt(q, i, x) == Upto(q, i - 1) \o <<x>> \o From(q, i)
DelAt(q, i) == Upto(q, i - 1) \o From(q, i + 1)
Slot(ks, k) == Cardinality({i \in DOMAIN ks : ks[i] <= k}) + 1     \* the child that covers k
\* <<file, <<>> or <<separator, new page>>, was the key new>>
RECURSIVE Ins(_, _, _)
Ins(F, p, k) ==
    IF Kind(F, p) = "leaf"
    THEN IF k \in SetOf(Ks(F, p)) THEN <<F, <<>>, FALSE>>
         ELSE LET all == Sorted(SetOf(Ks(F, p)) \union {k})
                  cut == IF Variant = "lopsided" THEN LD ELSE (LD + 2) \div 2
              IN IF Len(all) <= LD THEN <<Put(F, p, Leaf(all, Ps(F, p))), <<>>, TRUE>>
                 ELSE LET a == Alloc(F, Leaf(From(all, cut + 1), Ps(F, p)))
                      IN <<Put(a[1], p, Leaf(Upto(all, cut), a[2])), <<all[cut + 1], a[2]>>, TRUE>>
    ELSE LET i == Slot(Ks(F, p), k)
             r == Ins(F, Ps(F, p)[i], k)
         IN IF r[2] = <<>> THEN r
            ELSE LET ks == InsAt(Ks(F, p), i, r[2][1])
                     ps == InsAt(Ps(F, p), i + 1, r[2][2])
                     half == (ID + 1) \div 2
                 IN IF Len(ks) <= ID THEN <<Put(r[1], p, Inner(ks, ps)), <<>>, r[3]>>
                    ELSE LET a == Alloc(r[1], Inner(From(ks, half + 2), From(ps, half + 2)))
                         IN <<Put(a[1], p, Inner(Upto(ks, half), Upto(ps, half + 1))), <<ks[half + 1], a[2]>>, r[3]>>
InsertInto(F, k) ==
    LET r == Ins(F, F.root, k)
        a == IF r[2] = <<>> THEN <<r[1], F.root>> ELSE Alloc(r[1], Inner(<<r[2][1]>>, <<F.root, r[2][2]>>))
    IN [a[1] EXCEPT !.root = a[2], !.len = IF r[3] THEN @ + 1 ELSE @]
\* children i and i + 1 of inner node p become one
Merge(F, p, i) ==
    LET a == Ps(F, p)[i]
        b == Ps(F, p)[i + 1]
        x == IF Kind(F, a) = "leaf"
             THEN Leaf(Ks(F, a) \o Ks(F, b), IF Variant = "nochain" THEN Ps(F, a) ELSE Ps(F, b))
             ELSE Inner(Ks(F, a) \o <<Ks(F, p)[i]>> \o Ks(F, b), Ps(F, a) \o Ps(F, b))
        F1 == Put(Dealloc(F, b), a, x)
    IN Put(F1, p, Inner(DelAt(Ks(F, p), i), DelAt(Ps(F, p), i + 1)))
\* the first entry of child i + 1 moves to child i
FromRight(F, p, i) ==
    LET a == Ps(F, p)[i]
        b == Ps(F, p)[i + 1]
        leaf == Kind(F, a) = "leaf"
        sep == IF leaf THEN (IF Variant = "staleseparator" THEN Ks(F, p)[i] ELSE Ks(F, b)[2]) ELSE Ks(F, b)[1]
        F1 == Put(F, a, IF leaf THEN Leaf(Append(Ks(F, a), Ks(F, b)[1]), Ps(F, a))
                        ELSE Inner(Append(Ks(F, a), Ks(F, p)[i]), Append(Ps(F, a), Ps(F, b)[1])))
        F2 == Put(F1, b, IF leaf THEN Leaf(From(Ks(F, b), 2), Ps(F, b)) ELSE Inner(From(Ks(F, b), 2), From(Ps(F, b), 2)))
    IN Put(F2, p, Inner([Ks(F, p) EXCEPT ![i] = sep], Ps(F, p)))
\* the last entry of child i moves to child i + 1
FromLeft(F, p, i) ==
    LET a == Ps(F, p)[i]
        b == Ps(F, p)[i + 1]
        leaf == Kind(F, a) = "leaf"
        n == Len(Ks(F, a))
        last == Ks(F, a)[n]
        F1 == Put(F, a, IF leaf THEN Leaf(Upto(Ks(F, a), n - 1), Ps(F, a)) ELSE Inner(Upto(Ks(F, a), n - 1), Upto(Ps(F, a), n)))
        F2 == Put(F1, b, IF leaf THEN Leaf(<<last>> \o Ks(F, b), Ps(F, b))
                         ELSE Inner((IF Variant = "turn" THEN <<last>> ELSE <<Ks(F, p)[i]>>) \o Ks(F, b), <<Ps(F, a)[n + 1]>> \o Ps(F, b)))
    IN Put(F2, p, Inner([Ks(F, p) EXCEPT ![i] = last], Ps(F, p)))
Least(F, p) == IF Kind(F, p) = "leaf" THEN MinLeaf(LD) ELSE MinFan(ID) - 1
RECURSIVE Rem(_, _, _)
Rem(F, p, k) ==
    IF Kind(F, p) = "leaf" THEN Put(F, p, Leaf(SelectSeq(Ks(F, p), LAMBDA x : x # k), Ps(F, p)))
    ELSE LET i == Slot(Ks(F, p), k)
             c == Ps(F, p)[i]
             F1 == Rem(F, c, k)
         IN IF Len(Ks(F1, c)) >= Least(F, c) \/ (Variant = "nofix" /\ i > 1) THEN F1
            ELSE LET j == IF i = 1 THEN 1 ELSE i - 1
                     sib == IF i = 1 THEN Ps(F, p)[2] ELSE Ps(F, p)[i - 1]
                 IN IF Len(Ks(F1, sib)) = Least(F, c) THEN Merge(F1, p, j)
                    ELSE IF i = 1 THEN FromRight(F1, p, 1) ELSE FromLeft(F1, p, j)
RECURSIVE Holds(_, _, _)
Holds(F, p, k) == IF Kind(F, p) = "leaf" THEN k \in SetOf(Ks(F, p)) ELSE Holds(F, Ps(F, p)[Slot(Ks(F, p), k)], k)
RemoveFrom(F, k) ==
    LET F1 == Rem(F, F.root, k)
        r == F.root
        F2 == IF Kind(F1, r) = "inner" /\ Ks(F1, r) = <<>>
              THEN (IF Variant = "rootleak" THEN [F1 EXCEPT !.root = Ps(F1, r)[1]] ELSE [Dealloc(F1, r) EXCEPT !.root = Ps(F1, r)[1]])
              ELSE F1
    IN IF Holds(F, r, k) THEN [F2 EXCEPT !.len = @ - 1] ELSE F
New == [pages |-> <<Leaf(<<>>, No)>>, root |-> 1, free |-> No, len |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
Lab(w, k) == w \o " " \o ToString(k)
Init == f = New /\ s = {} /\ peak = 0 /\ op = "init"
Insert(k) == f' = InsertInto(f, k) /\ s' = s \union {k} /\ peak' = Max2(peak, Cardinality(s')) /\ op' = Lab("ins 1", k)
Remove(k) == f' = RemoveFrom(f, k) /\ s' = s \ {k} /\ peak' = peak /\ op' = Lab("rem 1", k)
Clear == /\ f' = (IF Variant = "clearfree" THEN [New EXCEPT !.free = f.free] ELSE New)
         /\ s' = {} /\ peak' = 0 /\ op' = "clear 1"
Next == Clear \/ \E k \in 1 .. N : Insert(k) \/ Remove(k)
Spec == Init /\ [][Next]_<<f, s, peak, op>>

RECURSIVE Tree(_, _)
Tree(F, p) == IF Kind(F, p) = "leaf" THEN <<Ks(F, p)>>
              ELSE <<Ks(F, p), [i \in 1 .. Len(Ps(F, p)) |-> Tree(F, Ps(F, p)[i])]>>
RECURSIVE Reach(_, _)
Reach(F, p) == {p} \union (IF Kind(F, p) = "inner" THEN UNION {Reach(F, Ps(F, p)[i]) : i \in 1 .. Len(Ps(F, p))} ELSE {})
RECURSIVE Freed(_, _, _)
Freed(F, p, n) == IF p = No \/ n = 0 THEN {} ELSE {p} \union Freed(F, Pg(F, p)[2], n - 1)
RECURSIVE LeavesOf(_, _)
LeavesOf(F, p) == IF Kind(F, p) = "leaf" THEN <<p>>
                  ELSE LET RECURSIVE Cat(_)
                           Cat(i) == IF i > Len(Ps(F, p)) THEN <<>> ELSE LeavesOf(F, Ps(F, p)[i]) \o Cat(i + 1)
                       IN Cat(1)
Chain(F) == LET z == LeavesOf(F, F.root) IN \A i \in 1 .. Len(z) : Ps(F, z[i]) = (IF i = Len(z) THEN No ELSE z[i + 1])
RECURSIVE Between(_, _, _, _)      \* keys of the subtree lie in lo .. hi - 1, in order, and nodes are filled
Between(F, p, lo, hi) ==
    LET ks == Ks(F, p) IN
    /\ \A i \in DOMAIN ks : lo <= ks[i] /\ ks[i] < hi /\ (i > 1 => ks[i - 1] < ks[i])
    /\ IF Kind(F, p) = "leaf" THEN Len(ks) <= LD /\ (p = F.root \/ Len(ks) >= MinLeaf(LD))
       ELSE /\ Len(ks) <= ID /\ Len(ks) >= (IF p = F.root THEN 1 ELSE MinFan(ID) - 1) /\ Len(Ps(F, p)) = Len(ks) + 1
            /\ \A i \in 1 .. Len(Ps(F, p)) :
                  Between(F, Ps(F, p)[i], IF i = 1 THEN lo ELSE ks[i - 1], IF i > Len(ks) THEN hi ELSE ks[i])
RECURSIVE Depths(_, _)
Depths(F, p) == IF Kind(F, p) = "leaf" THEN {0} ELSE UNION {{d + 1 : d \in Depths(F, Ps(F, p)[i])} : i \in 1 .. Len(Ps(F, p))}
Refines == /\ f.len = Cardinality(s)
           /\ \A k \in 0 .. N + 1 : Holds(f, f.root, k) <=> k \in s
           /\ LET z == LeavesOf(f, f.root)
                  RECURSIVE Along(_, _)
                  Along(p, n) == IF p = No \/ n = 0 THEN <<>> ELSE Ks(f, p) \o Along(Ps(f, p), n - 1)
              IN Along(z[1], Len(z) + 1) = Sorted(s)
Shaped == /\ Between(f, f.root, 0, N + 1) /\ Cardinality(Depths(f, f.root)) = 1 /\ Chain(f)
\* no page is lost or in two places; the file grows no further than the largest size since the last clear needs
Pages == LET r == Reach(f, f.root)
             e == Freed(f, f.free, Len(f.pages) + 1)
         IN r \cap e = {} /\ r \union e = 1 .. Len(f.pages)
Space == Len(f.pages) <= MaxPages(peak, LD, ID)
\* page numbers do not matter
View == <<Tree(f, f.root), Len(f.pages), f.len, Chain(f), Pages, s, MaxPages(peak, LD, ID)>>
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(View), op', TLCFP(View')>>, IOEnv.EDGES)
=============================================================================
