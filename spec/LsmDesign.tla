------------------------------ MODULE LsmDesign ------------------------------
(***************************************************************************)
(* The design of the log-structured map: a memory table, tables on disk in *)
(* directories of their own, a metadata file naming the tables in use, a   *)
(* compaction thread that works from a snapshot and publishes the metadata *)
(* it proposes, the replacement of the metadata by the next call that      *)
(* looks, iterators that hold compaction off, and kills between any two    *)
(* steps that change the disk.  The whole state is the record `s`:         *)
(*   mem   memory table: key -> <<time, live>>                             *)
(*   tab   directories on disk: id -> [e |-> key -> <<time, live>>, z |-> size]  *)
(*   cur   metadata in memory: [ss |-> sequence of ids, lv |-> levels: sequence of sets of ids] *)
(*   dsk   the metadata file                                               *)
(*   next  the proposed metadata, <<>> if none;  snap  newest time in the snapshot it came from *)
(*   since  ghost: tables flushed since that snapshot                      *)
(*   thr   compaction threads: [made |-> tables, res |-> metadata, at |-> where it is]   *)
(*   busy  the compacting flag;  hand  whether there is a thread to join   *)
(*   its   live iterators;  pc, then, drop  where the call in progress is  *)
(*   m, d, c  ghosts: the map, the map that a kill now would leave, and    *)
(*         the map that the tables of `cur` hold;  f  failures since all was in step *)
(* Times are renumbered after every step: only their order matters, so     *)
(* that histories of every length are covered.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, CSV
CONSTANTS
    N,          \* keys
    Cap,        \* entries of the memory table that make it overflow
    Leveled,    \* which strategy
    Mc,         \* tables allowed before they are compacted
    Mi, Gf,     \* leveled: tables of the first level, growth
    Per,        \* leveled: entries of a table in a level
    Min,        \* size-tiered: size of the smallest bucket
    Low, High,  \* size-tiered: percent of the average that belong to a bucket
    MaxSS,      \* tables that may wait for the thread
    Faults,     \* file calls that may fail before all is in step again
    Variant
VARIABLES s, op
Keys == 1 .. N
Nothing == [k \in {} |-> <<0, TRUE>>]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A w \in S : y <= w IN <<x>> \o SeqOf(S \ {x})
MinS(S) == CHOOSE y \in S : \A w \in S : y <= w
MaxS(S) == CHOOSE y \in S : \A w \in S : y >= w
ToSet(q) == {q[i] : i \in 1 .. Len(q)}
Refs(md) == ToSet(md.ss) \union UNION ToSet(md.lv)
Without(f, S) == [i \in DOMAIN f \ S |-> f[i]]
Over(f, g) == [k \in DOMAIN f \union DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Fresh(S) == CHOOSE i \in 1 .. Cardinality(S) + 1 : i \notin S /\ \A j \in 1 .. i - 1 : j \in S
\* newest entry of each key among the tables
Merge(T, ids) == LET ks == UNION {DOMAIN T[i].e : i \in ids} IN
    [k \in ks |-> LET c == {T[i].e[k] : i \in {j \in ids : k \in DOMAIN T[j].e}}
                  IN CHOOSE x \in c : \A y \in c : x[1] >= y[1]]
Live(e) == [k \in {j \in DOMAIN e : e[j][2]} |-> e[k][1]]
Dead(e) == {k \in DOMAIN e : ~e[k][2]}
Newest(e) == MaxS({e[k][1] : k \in DOMAIN e})
Oldest(e) == MinS({e[k][1] : k \in DOMAIN e})
Lo(e) == MinS(DOMAIN e)
Hi(e) == MaxS(DOMAIN e)
Meet(e, f) == IF Variant = "openrange"
              THEN (IF Lo(e) > Lo(f) THEN Lo(e) ELSE Lo(f)) < (IF Hi(e) < Hi(f) THEN Hi(e) ELSE Hi(f))
              ELSE (IF Lo(e) > Lo(f) THEN Lo(e) ELSE Lo(f)) <= (IF Hi(e) < Hi(f) THEN Hi(e) ELSE Hi(f))
\* bytes of a table of four-byte keys and eight-byte values whose blocks were laid out for h entries
Root(h) == CHOOSE b \in 0 .. h : b * b >= h /\ (b = 0 \/ (b - 1) * (b - 1) < h)
Size(e, h) == LET p == Cardinality(DOMAIN e) t == Cardinality(Dead(e)) b == Root(h) IN
    29 * (p - t) + 21 * t + (p \div b) * (16 + 12 * b)

(* ---------------------------- leveled compaction ---------------------------- *)
\* w: [T |-> tables, lv |-> levels, made |-> ids written, old |-> ids of the snapshot, used |-> ids not to be given out]
\* write the entries, in key order, to tables of level x
RECURSIVE WriteLevel(_, _, _, _)
WriteLevel(w, x, ks, e) ==
    IF ks = <<>> THEN w
    ELSE LET c == IF Len(ks) < Per THEN Len(ks) ELSE Per
             part == ToSet(SubSeq(ks, 1, c))
             i == Fresh(w.used)
             w1 == [w EXCEPT !.T = [j \in DOMAIN w.T \union {i} |-> IF j = i THEN [e |-> [k \in part |-> e[k]], z |-> 0] ELSE w.T[j]],
                             !.lv[x] = @ \union {i}, !.made = @ \union {i}, !.used = @ \union {i}]
         IN WriteLevel(w1, x, SubSeq(ks, c + 1, Len(ks)), e)
Kept(e, purge) == IF purge THEN [k \in DOMAIN e \ Dead(e) |-> e[k]] ELSE e
PutLevel(w, x, e0, purge) == LET e == Kept(e0, purge) IN WriteLevel(w, x, SeqOf(DOMAIN e), e)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Bound(x) == Mi * Pow(Gf, x - 1)
\* the table with the largest share of tombstones; of equals the last in key order
Worst(w, x) == CHOOSE i \in w.lv[x] : \A j \in w.lv[x] :
    LET a == Cardinality(Dead(w.T[i].e)) * Cardinality(DOMAIN w.T[j].e)
        b == Cardinality(Dead(w.T[j].e)) * Cardinality(DOMAIN w.T[i].e)
    IN a > b \/ (a = b /\ Hi(w.T[i].e) >= Hi(w.T[j].e))
RECURSIVE Descend(_, _)
Descend(w, x) ==
    IF x > Len(w.lv) THEN w
    ELSE IF Cardinality(w.lv[x]) <= Bound(x) THEN Descend(w, x + 1)
    ELSE LET i == Worst(w, x)
             w1 == [w EXCEPT !.lv[x] = @ \ {i}]
         IN IF x = Len(w.lv) THEN Descend([w1 EXCEPT !.lv = Append(@, {i})], x)
            ELSE LET hit == {j \in w1.lv[x + 1] : Meet(w1.T[i].e, w1.T[j].e)}
                     both == hit \union {i}
                     last == IF Variant = "tombearly" THEN x + 1 >= Len(w1.lv) - 1 ELSE x + 1 = Len(w1.lv)
                     w2 == PutLevel([w1 EXCEPT !.lv[x + 1] = @ \ hit], x + 1, Merge(w1.T, both), last)
                     gone == IF Variant = "leak" THEN {} ELSE IF Variant = "eatold" THEN both ELSE both \ w2.old
                 IN Descend([w2 EXCEPT !.T = Without(@, gone), !.made = @ \ gone, !.ate = @ \union (gone \intersect w2.old)], x)
LeveledWork(w0) ==
    LET w == IF w0.lv = <<>> THEN [w0 EXCEPT !.lv = <<{}>>] ELSE w0
        e == Merge(w.T, ToSet(w.ss) \union w.lv[1])
        purge == Len(w.lv) = 1 \/ Variant = "tombfirst"
        r == Descend(PutLevel([w EXCEPT !.lv[1] = {}], 1, e, purge), 1)
    IN [made |-> [i \in r.made |-> r.T[i]], res |-> [ss |-> <<>>, lv |-> r.lv], ate |-> r.ate]

(* ---------------------------- size-tiered compaction ---------------------------- *)
\* stable sort by size
RECURSIVE BySize(_, _)
BySize(T, q) ==
    IF q = <<>> THEN <<>>
    ELSE LET x == CHOOSE i \in 1 .. Len(q) : \A j \in 1 .. Len(q) : T[q[i]].z < T[q[j]].z \/ (T[q[i]].z = T[q[j]].z /\ i <= j)
         IN <<q[x]>> \o BySize(T, SubSeq(q, 1, x - 1) \o SubSeq(q, x + 1, Len(q)))
RECURSIVE Bucket(_, _, _, _, _)     \* <<start, end>> (end exclusive, from 0) or <<>>
Bucket(T, q, start, c, sum) ==
    IF c = Len(q) THEN (IF c - start > Mc THEN <<start, c>> ELSE <<>>)
    ELSE LET z0 == T[q[start + 1]].z
             z1 == T[q[c + 1]].z
             n == c - start + 1
             fits == z1 <= Min \/ ((sum + z1) * Low <= 100 * n * z0 /\ 100 * n * z1 <= High * (sum + z1))
         IN IF fits THEN Bucket(T, q, start, c + 1, sum + z1)
            ELSE IF n > Mc THEN <<start, c + 1>>
            ELSE Bucket(T, q, c + 1, c + 1, 0)
TieredWork(w) ==
    LET q == BySize(w.T, w.ss)
        r == Bucket(w.T, q, 0, 0, 0)
        old == ToSet(SubSeq(q, r[1] + 1, r[2]))
        rest == SubSeq(q, 1, r[1]) \o SubSeq(q, r[2] + 1, Len(q))
        lo == MinS({Lo(w.T[i].e) : i \in old})
        hi == MaxS({Hi(w.T[i].e) : i \in old})
        newest == MaxS({Newest(w.T[i].e) : i \in old})
        newer(i) == newest < Oldest(w.T[i].e)
        apart(i) == ~(Lo(w.T[i].e) <= hi /\ lo <= Hi(w.T[i].e))
        purge == \A i \in ToSet(rest) :
            CASE Variant = "purgealways" -> TRUE
              [] Variant = "purgemeeting" -> newer(i) \/ ~apart(i)
              [] OTHER -> newer(i) /\ apart(i)
        RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN Cardinality(DOMAIN w.T[i].e) + Sum(S \ {i})
        e == Kept(Merge(w.T, old), purge)
        i == Fresh(w.used)
    IN IF DOMAIN e = {} THEN [made |-> <<>>, res |-> [ss |-> rest, lv |-> <<>>], ate |-> {}]
       ELSE [made |-> [j \in {i} |-> [e |-> e, z |-> Size(e, Sum(old))]], res |-> [ss |-> Append(rest, i), lv |-> <<>>], ate |-> {}]
Due(x) == IF Leveled THEN Len(x.cur.ss) > Mc ELSE Bucket(x.tab, BySize(x.tab, x.cur.ss), 0, 0, 0) # <<>>
Taken(x) == DOMAIN x.tab \union UNION {DOMAIN x.thr[i].made : i \in 1 .. Len(x.thr)}
Work(x) == LET w == [T |-> x.tab, ss |-> x.cur.ss, lv |-> x.cur.lv, made |-> {}, ate |-> {}, old |-> Refs(x.cur), used |-> Taken(x)]
           IN IF Leveled THEN LeveledWork(w) ELSE TieredWork(w)

(* ---------------------------- steps of a call ---------------------------- *)
Ids(x, md) == {x.tab[i].e : i \in Refs(md)}
\* the proposed metadata replaces the current one; tables flushed since the snapshot stay
Proposed(x) ==
    LET later == SelectSeq(x.cur.ss, LAMBDA i : LET z == Newest(x.tab[i].e) IN
                     CASE Variant = "keepnewest" -> z >= x.snap
                       [] Variant = "newestleft" -> z > MaxS({0} \union {Newest(x.tab[j].e) : j \in Refs(x.next[1])})
                       [] OTHER -> z > x.snap)
    IN [ss |-> x.next[1].ss \o (IF Variant = "lostflush" THEN <<>> ELSE later), lv |-> x.next[1].lv]
Replace(x, cont) ==
    IF x.next = <<>> THEN [x EXCEPT !.pc = cont]
    ELSE LET p0 == Proposed(x)
             \* what was flushed since the snapshot is in, and nothing that was merged is
             p == IF Len(p0.ss) = Len(x.next[1].ss) + x.since THEN p0 ELSE Assert(FALSE, "tables taken over")
             gone == IF Variant = "nodrop" THEN {} ELSE Refs(x.cur) \ Refs(p)
             y == [x EXCEPT !.cur = p, !.next = <<>>, !.drop = gone, !.then = cont]
         IN IF Variant = "removefirst" THEN [y EXCEPT !.tab = Without(@, gone), !.drop = {}, !.pc = "write"]
            ELSE [y EXCEPT !.dsk = p, !.d = y.c, !.pc = "drop"]
Empty == [ss |-> <<>>, lv |-> <<>>]
NoMap == [k \in {} |-> 0]
\* the table just built is named by the metadata in memory
Pushed(x) == [x EXCEPT !.cur.ss = @ \o SeqOf(x.drop), !.drop = {}, !.c = x.m,
                       !.since = @ + (IF x.thr # <<>> \/ x.next # <<>> THEN 1 ELSE 0)]
Joined(x) == ~x.hand \/ x.thr = <<>>
Main(x) ==
    CASE x.pc = "build" ->      \* a directory for the table, then its files
           LET i == Fresh(Taken(x)) IN
           [x EXCEPT !.tab = [j \in DOMAIN @ \union {i} |-> IF j = i THEN [e |-> x.mem, z |-> IF Leveled THEN 0 ELSE Size(x.mem, Cardinality(DOMAIN x.mem))] ELSE @[j]],
                     !.drop = {i}, !.mem = IF Variant = "memfirst" THEN Nothing ELSE @, !.pc = "push"]
      [] x.pc = "push" ->       \* the metadata names it
           LET y == Pushed(x)
               w == [y EXCEPT !.dsk = IF Variant = "unnamed" THEN @ ELSE y.cur, !.d = y.c]
           IN IF x.busy \/ (x.its > 0 /\ Variant # "noheld") THEN [w EXCEPT !.mem = Nothing, !.pc = x.after] ELSE [w EXCEPT !.pc = "look"]
      [] x.pc = "look" -> Replace(x, "spawn")
      [] x.pc = "peek" -> Replace(x, "idle")
      [] x.pc = "drop" -> [x EXCEPT !.tab = Without(@, x.drop), !.drop = {}, !.pc = IF Faults > 0 THEN "write" ELSE x.then, !.then = IF Faults > 0 THEN @ ELSE "idle"]
      [] x.pc = "write" -> [x EXCEPT !.dsk = x.cur, !.d = x.c, !.pc = x.then, !.then = "idle"]
      [] x.pc = "spawn" ->
           IF Due(x)
           THEN LET r == Work(x) IN
                [x EXCEPT !.thr = Append(@, [made |-> r.made, res |-> r.res, ate |-> r.ate, at |-> "run"]), !.busy = TRUE, !.hand = TRUE, !.since = 0,
                          !.snap = MaxS({Newest(x.tab[i].e) : i \in ToSet(x.cur.ss)}), !.mem = Nothing, !.pc = x.after]
           ELSE [x EXCEPT !.mem = Nothing, !.pc = x.after]
      [] x.pc = "join" -> IF x.hand THEN Replace([x EXCEPT !.hand = FALSE], "joined") ELSE [x EXCEPT !.pc = "joined"]
      [] x.pc = "joined" -> IF x.opening > 0 /\ x.next # <<>> THEN Replace(x, "joined")
                              ELSE [x EXCEPT !.pc = "idle", !.its = @ + x.opening, !.opening = 0]
      [] x.pc = "clear" ->
           LET y == [x EXCEPT !.hand = FALSE, !.cur = Empty, !.next = <<>>, !.c = NoMap] IN
           IF Variant = "clearfirst" THEN [y EXCEPT !.tab = <<>>, !.mem = Nothing, !.m = NoMap, !.pc = "cleared"]
           ELSE [y EXCEPT !.dsk = y.cur, !.d = y.c, !.pc = "wipe"]
      [] x.pc = "wipe" -> [x EXCEPT !.tab = <<>>, !.mem = Nothing, !.m = NoMap, !.pc = "idle"]
      [] x.pc = "cleared" -> [x EXCEPT !.dsk = x.cur, !.d = x.m, !.pc = "idle"]
      [] x.pc = "close" -> [x EXCEPT !.m = x.d, !.c = x.d, !.mem = Nothing, !.cur = x.dsk, !.next = <<>>, !.hand = FALSE, !.its = 0,
                                     !.tab = [i \in DOMAIN @ \intersect Refs(x.dsk) |-> @[i]], !.pc = "idle"]
\* the file call of the step fails, and with it the call in progress: what is left
Ended(x) == [x EXCEPT !.f = @ + 1, !.pc = "idle", !.then = "idle", !.after = "idle", !.drop = {}, !.opening = 0]
Unwritten(x) == LET y == Replace(x, "idle") IN
    [y EXCEPT !.dsk = x.dsk, !.d = x.d,
              !.tab = IF Variant = "dropfirst" THEN Without(@, y.drop) ELSE @]
\* the kind of the call: 1 a directory or file of a table, 8 metadata, 32 removal, 0 none
Kind(x) == CASE x.pc = "build" -> 1
             [] x.pc \in {"push", "clear", "write"} -> 8
             [] x.pc \in {"look", "peek"} -> IF x.next # <<>> THEN 8 ELSE 0
             [] x.pc = "join" -> IF x.hand /\ x.next # <<>> THEN 8 ELSE 0
             [] x.pc = "joined" -> IF x.opening > 0 /\ x.next # <<>> THEN 8 ELSE 0
             [] x.pc = "drop" -> IF x.drop # {} THEN 32 ELSE 0
             [] x.pc = "wipe" -> IF DOMAIN x.tab # {} THEN 32 ELSE 0
             [] OTHER -> 0
Broken(x) == Ended(
    CASE x.pc = "build" -> IF Variant = "memfirst" THEN [x EXCEPT !.mem = Nothing] ELSE x
      [] x.pc = "push" -> IF Variant = "pushmem" THEN [Pushed(x) EXCEPT !.mem = Nothing] ELSE Pushed(x)
      [] x.pc \in {"look", "peek", "joined"} -> Unwritten(x)
      [] x.pc = "join" -> Unwritten([x EXCEPT !.hand = FALSE])
      [] x.pc \in {"drop", "write"} -> x
      [] x.pc = "clear" -> CASE Variant = "clearmem" -> [x EXCEPT !.hand = FALSE, !.mem = Nothing]
                             [] Variant = "clearcur" -> [x EXCEPT !.hand = FALSE, !.cur = Empty]
                             [] OTHER -> [x EXCEPT !.hand = FALSE]
      [] x.pc = "wipe" -> [x EXCEPT !.m = Live(x.mem)])
Waits(x) == x.pc \in {"join", "clear", "close"} /\ ~Joined(x)
\* the thread: its tables appear, it publishes, it says that it is done
ThreadAt(x, i) ==
    LET t == x.thr[i]
        rest == SubSeq(x.thr, 1, i - 1) \o SubSeq(x.thr, i + 1, Len(x.thr))
        off(y) == [y EXCEPT !.busy = FALSE]
        set(y) == [y EXCEPT !.next = <<t.res>>]
    IN CASE t.at = "run" -> [x EXCEPT !.tab = Over(Without(@, t.ate), t.made), !.thr[i].at = "wrote", !.thr[i].made = <<>>]
         [] t.at = "wrote" -> IF Variant = "earlyidle" THEN [off(x) EXCEPT !.thr[i].at = "said"] ELSE [set(x) EXCEPT !.thr[i].at = "set"]
         [] t.at = "said" -> [set(x) EXCEPT !.thr = rest]
         [] t.at = "set" -> [off(x) EXCEPT !.thr = rest]
\* a thread whose call fails is gone, and what it wrote means nothing
ThreadDies(x, i) == [x EXCEPT !.f = @ + 1, !.thr = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.busy = Variant = "busyleft"]
\* starts of calls
Write(x, k, live) ==
    LET t == 1 + MaxS({0} \union {x.mem[j][1] : j \in DOMAIN x.mem} \union {x.m[j] : j \in DOMAIN x.m} \union {x.d[j] : j \in DOMAIN x.d} \union {x.c[j] : j \in DOMAIN x.c}
                      \union UNION {{x.tab[i].e[j][1] : j \in DOMAIN x.tab[i].e} : i \in DOMAIN x.tab})
        mem == Over(x.mem, [j \in {k} |-> <<t, live>>])
    IN [x EXCEPT !.mem = mem, !.m = IF live THEN Over(@, [j \in {k} |-> t]) ELSE Without(@, {k}),
                 !.pc = IF Cardinality(DOMAIN mem) >= Cap THEN "build" ELSE "idle", !.after = "idle"]
Flushing(x, n) == [x EXCEPT !.pc = IF DOMAIN x.mem = {} THEN "join" ELSE "build", !.after = "join", !.opening = n]
\* times renumbered
Times(x) == {x.mem[j][1] : j \in DOMAIN x.mem} \union {x.m[j] : j \in DOMAIN x.m} \union {x.d[j] : j \in DOMAIN x.d} \union {x.c[j] : j \in DOMAIN x.c}
    \union UNION {{x.tab[i].e[j][1] : j \in DOMAIN x.tab[i].e} : i \in DOMAIN x.tab}
    \union UNION {UNION {{t.made[i].e[j][1] : j \in DOMAIN t.made[i].e} : i \in DOMAIN t.made} : t \in ToSet(x.thr)}
\* directories renumbered in the order in which the metadata names them: their names mean nothing
RECURSIVE ByKey(_, _)
ByKey(T, S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : \A y \in S : Lo(T[x].e) < Lo(T[y].e) \/ (Lo(T[x].e) = Lo(T[y].e) /\ x <= y)
                                        IN <<i>> \o ByKey(T, S \ {i})
RECURSIVE Levels(_, _)
Levels(T, lv) == IF lv = <<>> THEN <<>> ELSE ByKey(T, Head(lv)) \o Levels(T, Tail(lv))
Named(T, md) == md.ss \o Levels(T, md.lv)
RECURSIVE Firsts(_, _)
Firsts(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Firsts(Tail(q), seen) ELSE <<Head(q)>> \o Firsts(Tail(q), seen \union {Head(q)})
Renamed(x) ==
    LET RECURSIVE Made(_)
        Made(i) == IF i > Len(x.thr) THEN x.tab ELSE Over(Made(i + 1), x.thr[i].made)
        T == Made(1)
        RECURSIVE Res(_)
        Res(i) == IF i > Len(x.thr) THEN <<>> ELSE Named(T, x.thr[i].res) \o Res(i + 1)
        q == Firsts(Named(T, x.cur) \o Named(T, x.dsk) \o (IF x.next = <<>> THEN <<>> ELSE Named(T, x.next[1])) \o Res(1) \o SeqOf(DOMAIN T), {})
        r == [i \in ToSet(q) |-> CHOOSE j \in 1 .. Len(q) : q[j] = i]
        S(c) == {r[i] : i \in c}
        M(md) == [ss |-> [i \in 1 .. Len(md.ss) |-> r[md.ss[i]]], lv |-> [i \in 1 .. Len(md.lv) |-> S(md.lv[i])]]
        F(f) == [j \in S(DOMAIN f) |-> f[q[j]]]
    IN [x EXCEPT !.tab = F(@), !.cur = M(@), !.dsk = M(@), !.next = IF @ = <<>> THEN <<>> ELSE <<M(@[1])>>, !.drop = S(@ \intersect ToSet(q)),
                 !.thr = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.made = F(@), !.res = M(@), !.ate = S(@ \intersect ToSet(q))]]]
\* failures leave directories that nobody names: they mean nothing either
Pruned(x) == [x EXCEPT !.tab = LET keep == Refs(x.cur) \union Refs(x.dsk) \union x.drop \union (IF x.next = <<>> THEN {} ELSE Refs(x.next[1]))
                                           \union UNION {Refs(t.res) : t \in ToSet(x.thr)}
                               IN Without(@, DOMAIN @ \ keep)]
Canon(y0) ==
    LET y == IF Faults > 0 THEN Pruned(y0) ELSE y0
        x == [IF \E i \in Refs(y.cur) \union Refs(y.dsk) : i \notin Taken(y) THEN y ELSE Renamed(y) EXCEPT !.snap = IF y.thr = <<>> /\ y.next = <<>> THEN 0 ELSE @, !.since = IF y.thr = <<>> /\ y.next = <<>> THEN 0 ELSE @]
        all == Times(x) \union {x.snap}
        r == [t \in all |-> Cardinality({u \in all \ {0} : u <= t})]
        E(e) == [k \in DOMAIN e |-> <<r[e[k][1]], e[k][2]>>]
        T(f) == [i \in DOMAIN f |-> [e |-> E(f[i].e), z |-> f[i].z]]
        V(f) == [k \in DOMAIN f |-> r[f[k]]]
    IN [x EXCEPT !.mem = E(@), !.tab = T(@), !.m = V(@), !.d = V(@), !.c = V(@), !.f = IF x.mem = Nothing /\ x.dsk = x.cur /\ x.next = <<>> /\ x.thr = <<>> /\ ~x.busy THEN 0 ELSE @, !.snap = r[@],
                 !.thr = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.made = T(@)]]]
Start == [mem |-> Nothing, tab |-> <<>>, cur |-> [ss |-> <<>>, lv |-> <<>>], dsk |-> [ss |-> <<>>, lv |-> <<>>],
          next |-> <<>>, snap |-> 0, since |-> 0, thr |-> <<>>, busy |-> FALSE, hand |-> FALSE, its |-> 0, opening |-> 0,
          pc |-> "idle", then |-> "idle", after |-> "idle", drop |-> {}, m |-> NoMap, d |-> NoMap, c |-> NoMap, f |-> 0]
Init == s = Start /\ op = "init"
Idle == s.pc = "idle"
Room == Len(s.cur.ss) < MaxSS
Begin(pre, f(_)) ==
    \/ \E k \in Keys : Room /\ f(Write(s, k, TRUE)) /\ op' = pre \o "ins " \o ToString(k)
    \/ \E k \in Keys : Room /\ f(Write(s, k, FALSE)) /\ op' = pre \o "rem " \o ToString(k)
    \/ Room /\ f(Flushing(s, 0)) /\ op' = pre \o "flush"
    \/ Room /\ s.its = 0 /\ f(Flushing(s, 1)) /\ op' = pre \o "it 1"
    \/ s.its > 0 /\ f([s EXCEPT !.its = 0]) /\ op' = pre \o "itc 1"
    \/ s.next # <<>> /\ f([s EXCEPT !.pc = "peek"]) /\ op' = pre \o "hint"
    \/ s.its = 0 /\ f([s EXCEPT !.pc = "clear"]) /\ op' = pre \o "clear"
    \/ s.its = 0 /\ f([s EXCEPT !.pc = "close"]) /\ op' = pre \o "reopen"
\* every step on its own, and a kill between any two
Fine == \/ Idle /\ Begin("", LAMBDA x : s' = Canon(x))
        \/ ~Idle /\ ~Waits(s) /\ s' = Canon(Main(s)) /\ op' = ""
        \/ \E i \in 1 .. Len(s.thr) : s' = Canon(ThreadAt(s, i)) /\ op' = ""
        \/ op' = "kill" /\ s' = Canon([Start EXCEPT !.tab = [i \in DOMAIN s.tab \intersect Refs(s.dsk) |-> s.tab[i]], !.cur = s.dsk, !.dsk = s.dsk, !.m = s.d, !.d = s.d, !.c = s.d])
        \/ s.f < Faults /\ Kind(s) # 0 /\ ~Waits(s) /\ s' = Canon(Broken(s)) /\ op' = "fault"
        \/ s.f < Faults /\ \E i \in 1 .. Len(s.thr) : s.thr[i].at = "run" /\ s' = Canon(ThreadDies(s, i)) /\ op' = "fault"
Spec == Init /\ [][Fine]_<<s, op>>
\* whole calls, and the thread's whole work
RECURSIVE Finish(_)
Finish(x) == IF x.thr = <<>> THEN x ELSE Finish(ThreadAt(x, 1))
RECURSIVE Run(_)
Run(x) == IF x.pc = "idle" THEN x ELSE Run(IF Waits(x) THEN Finish(x) ELSE Main(x))
\* the call, its n-th file call of kind f failing; <<>> if there is no such call
RECURSIVE RunBroken(_, _, _)
RunBroken(x, f, n) == IF x.pc = "idle" THEN <<>>
                      ELSE IF Waits(x) THEN RunBroken(Finish(x), f, n)
                      ELSE IF Kind(x) # f THEN RunBroken(Main(x), f, n)
                      ELSE IF n = 0 THEN <<Broken(x)>> ELSE RunBroken(Main(x), f, n - 1)
Coarse == \/ Begin("", LAMBDA x : s' = Canon(Run(x)))
          \/ s.thr # <<>> /\ s' = Canon(Finish(s)) /\ op' = "wait"
          \/ s.f < Faults /\ \E f \in {1, 8, 32}, n \in 0 .. 2 :
                 Begin("fail " \o ToString(f) \o " " \o ToString(n) \o "!", LAMBDA x : LET r == RunBroken(x, f, n) IN r # <<>> /\ s' = Canon(r[1]))
          \/ s.f < Faults /\ s.thr # <<>> /\ s' = Canon(ThreadDies(s, 1)) /\ op' = "fail!wait"
CoarseSpec == Init /\ [][Coarse]_<<s, op>>
View == s
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(s), op', TLCFP(s')>>, IOEnv.EDGES)
(* ---------------------------- what must hold ---------------------------- *)
\* a table the metadata names is there
Present == Refs(s.cur) \union Refs(s.dsk) \subseteq DOMAIN s.tab
\* how a lookup goes: memory, the newest among the loose tables, then level by level the one table that may hold the key
LevelGet(T, md, k) ==
    LET RECURSIVE Go(_)
        Go(x) == IF x > Len(md.lv) THEN <<>>
                 ELSE LET c == {i \in md.lv[x] : Hi(T[i].e) >= k}
                          i == CHOOSE j \in c : \A h \in c : Hi(T[j].e) <= Hi(T[h].e)
                      IN IF c # {} /\ k \in DOMAIN T[i].e THEN T[i].e[k] ELSE Go(x + 1)
    IN Go(1)
Get(T, md, k) == LET c == {T[i].e[k] : i \in {j \in ToSet(md.ss) : k \in DOMAIN T[j].e}} IN
    IF c # {} THEN CHOOSE x \in c : \A y \in c : x[1] >= y[1] ELSE LevelGet(T, md, k)
Value(e) == IF e = <<>> \/ ~e[2] THEN <<>> ELSE <<e[1]>>
Is(f, k) == IF k \in DOMAIN f THEN <<f[k]>> ELSE <<>>
\* lookups and scans show the map; a store opened now would show the durable map
Reads == s.pc = "idle" =>
    /\ \A k \in Keys : Value(IF k \in DOMAIN s.mem THEN s.mem[k] ELSE Get(s.tab, s.cur, k)) = Is(s.m, k)
    /\ Live(Over(Merge(s.tab, Refs(s.cur)), s.mem)) = s.m
Durable == /\ Live(Merge(s.tab, Refs(s.dsk))) = s.d
           /\ \A k \in Keys : Value(Get(s.tab, s.dsk, k)) = Is(s.d, k)
\* the tables of a level are apart from one another, and newer than those below
Apart == \A x \in 1 .. Len(s.cur.lv) : \A i, j \in s.cur.lv[x] :
             i # j => Hi(s.tab[i].e) < Lo(s.tab[j].e) \/ Hi(s.tab[j].e) < Lo(s.tab[i].e)
Newer == \A k \in Keys :
    LET holds == {<<x, i>> \in (1 .. Len(s.cur.lv)) \X DOMAIN s.tab : i \in s.cur.lv[x] /\ k \in DOMAIN s.tab[i].e}
        loose == {i \in ToSet(s.cur.ss) : k \in DOMAIN s.tab[i].e}
    IN /\ \A p, q \in holds : p[1] < q[1] => s.tab[p[2]].e[k][1] > s.tab[q[2]].e[k][1]
       /\ \A i \in loose, p \in holds : s.tab[i].e[k][1] > s.tab[p[2]].e[k][1]
\* no level holds more than it may, and once all is quiet nothing else lies in the folder
Bounded == \A x \in 1 .. Len(s.cur.lv) : Cardinality(s.cur.lv[x]) <= Bound(x)
Quiet == s.pc = "idle" /\ s.thr = <<>> /\ s.next = <<>>
Tidy == Quiet => DOMAIN s.tab = Refs(s.cur) /\ s.dsk = s.cur
Hint == s.pc = "idle" =>
    LET RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN Cardinality(DOMAIN s.tab[i].e \ Dead(s.tab[i].e)) + Sum(S \ {i})
    IN Cardinality(DOMAIN s.mem) + Sum(Refs(s.cur)) >= Cardinality(DOMAIN s.m)
\* once a flush is done everything accepted is on disk, whatever failed before; no thread is thought to be at work when there is none
Flushed == s.pc = "joined" => s.d = s.m
Awake == s.busy => s.thr # <<>>
\* iterators hold compaction off
Still == s.its > 0 => s.thr = <<>> /\ s.next = <<>>
=============================================================================
