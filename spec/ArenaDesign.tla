---------------------------- MODULE ArenaDesign ----------------------------
(***************************************************************************)
(* The design of the arena: chunks of blocks, of which only the last grows, *)
(* and a list of freed blocks threaded through the blocks themselves.  It   *)
(* refines Arena, the slots being the blocks in order of first use.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, CSV
CONSTANTS Chunk, MaxSlots, Variant
VARIABLES chunks, head, size, cap, sl, op
None == <<>>
Full(v) == <<"full", v>>
Gap(e) == <<"gap", e>>
Occupied(b) == b[1] = "full"
Has(e) == e[1] \in 1 .. Len(chunks) /\ e[2] \in 1 .. Len(chunks[e[1]])
Block(e) == chunks[e[1]][e[2]]
Put(c, e, b) == [c EXCEPT ![e[1]] = [@ EXCEPT ![e[2]] = b]]
\* the name of a block: its place in the order of first use
Name(e) == (e[1] - 1) * (IF Chunk = 0 THEN 1 ELSE Chunk) + e[2]
Live == {i \in 1 .. Len(sl) : sl[i] # <<>>}
Fresh == CHOOSE v \in 1 .. MaxSlots + 1 : (\A i \in Live : sl[i][1] # v) /\ \A w \in 1 .. v - 1 : \E i \in Live : sl[i][1] = w
A == INSTANCE Arena WITH Vals <- 1 .. MaxSlots + 1
Lab(w, i) == w \o " " \o ToString(i)

Allocate ==
    LET grow == IF Variant = "lastfull" THEN head = None /\ (chunks = <<>> \/ Len(chunks[Len(chunks)]) = Chunk)
                ELSE IF Variant = "eager" THEN size + 1 >= cap ELSE size = cap
        c0 == IF grow THEN Append(chunks, <<>>) ELSE chunks
        v == Fresh
        at == IF head = None THEN <<Len(c0), Len(c0[Len(c0)]) + 1>> ELSE head
    IN /\ size < MaxSlots
       /\ cap' = IF grow THEN cap + Chunk ELSE cap
       /\ size' = size + 1
       /\ IF head = None
          THEN chunks' = [c0 EXCEPT ![Len(c0)] = Append(@, Full(v))] /\ head' = None
          ELSE chunks' = Put(c0, head, Full(v)) /\ head' = (IF Variant = "onegap" THEN None ELSE Block(head)[2])
       /\ sl' = IF Name(at) <= Len(sl) THEN [sl EXCEPT ![Name(at)] = <<v>>] ELSE Append(sl, <<v>>)
       /\ op' = "alloc"
Release(e) ==
    /\ Has(e) /\ op' = Lab("free", Name(e))
    /\ IF Occupied(Block(e)) \/ Variant = "twice"
       THEN /\ chunks' = Put(chunks, e, Gap(IF Variant = "shortlist" THEN None ELSE head))
            /\ head' = e /\ size' = size - 1 /\ cap' = cap
            /\ sl' = [sl EXCEPT ![Name(e)] = <<>>]
       ELSE \* refused; the free list must survive it
            /\ head' = IF Variant = "takehead" THEN None ELSE head
            /\ UNCHANGED <<chunks, size, cap, sl>>
Init == chunks = <<>> /\ head = None /\ size = 0 /\ cap = 0 /\ sl = <<>> /\ op = "init"
Next == Allocate \/ \E c \in 1 .. Len(chunks) : \E b \in 1 .. Len(chunks[c]) : Release(<<c, b>>)
vars == <<chunks, head, size, cap, sl>>
Spec == Init /\ [][Next]_<<vars, op>>
\* values do not matter
Slots == [c \in 1 .. Len(chunks) |-> [b \in 1 .. Len(chunks[c]) |-> IF Occupied(chunks[c][b]) THEN <<"full">> ELSE chunks[c][b]]]
Reads == \A e \in UNION {{<<c, b>> : b \in 1 .. Len(chunks[c])} : c \in 1 .. Len(chunks)} :
             /\ Name(e) <= Len(sl)
             /\ sl[Name(e)] = (IF Occupied(Block(e)) THEN <<Block(e)[2]>> ELSE <<>>)
View == <<Slots, head, size, cap, Reads>>
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(View), op', TLCFP(View')>>, IOEnv.EDGES)
Refines == Reads /\ size = Cardinality(Live)
RECURSIVE Gaps(_, _)
Gaps(e, n) == IF e = None \/ n = 0 THEN {} ELSE {Name(e)} \union Gaps(Block(e)[2], n - 1)
Threaded == Gaps(head, MaxSlots + 1) = {i \in 1 .. Len(sl) : sl[i] = <<>>}
Packed == \A c \in 1 .. Len(chunks) : /\ Len(chunks[c]) <= Chunk
                                      /\ c < Len(chunks) => Len(chunks[c]) = Chunk
AbsStep == A!Next \/ sl' = sl
Abstract == [][AbsStep]_vars
=============================================================================
