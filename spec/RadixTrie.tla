------------------------------ MODULE RadixTrie ------------------------------
(***************************************************************************)
(* The design of the radix map: a compressed trie whose nodes carry a part *)
(* of the key, an optional value, and children in order of their first     *)
(* byte.  A tree is <<>> (vacated) or <<part, occupied, children>>.        *)
(* Searches compare the node's part with the rest of the key and descend   *)
(* by the next byte.                                                       *)
(***************************************************************************)
EXTENDS RadixMap, TLC, TLCExt, IOUtils, CSV
CONSTANTS Alphabet, MaxLen, Variant
VARIABLES t, op
Strings(n) == UNION {[1 .. i -> Alphabet] : i \in 0 .. n}
Nil == <<>>
P(x) == x[1]
Occ(x) == x[2]
Kids(x) == x[3]
Leaf(p) == <<p, TRUE, <<>>>>
Cut(k, n) == SubSeq(k, n + 1, Len(k))            \* the rest after n bytes
Pick(x, b) == LET D == {i \in 1 .. Len(Kids(x)) : P(Kids(x)[i])[1] = b} IN
              IF D = {} THEN 0 ELSE CHOOSE i \in D : TRUE
\* children stay in order of their first byte
AddKid(x, c) ==
    LET n == Cardinality({i \in 1 .. Len(Kids(x)) :
                 P(Kids(x)[i])[1] <= P(c)[1] \/ (Variant = "unsorted")})
    IN <<P(x), Occ(x), SubSeq(Kids(x), 1, n) \o <<c>> \o SubSeq(Kids(x), n + 1, Len(Kids(x)))>>
SplitAt(x, n) == <<SubSeq(P(x), 1, n), IF Variant = "keepvalue" THEN Occ(x) ELSE FALSE,
                   <<<<Cut(P(x), n), Occ(x), Kids(x)>>>>>>
RECURSIVE Ins(_, _)
Ins(y, k) ==
    LET x == IF y = Nil THEN <<<<>>, FALSE, <<>>>> ELSE y
        c == LCP(P(x), k)
    IN IF c < Len(P(x)) /\ c < Len(k) THEN AddKid(SplitAt(x, c), Leaf(Cut(k, c)))
       ELSE IF Len(P(x)) < Len(k)
       THEN LET r == Cut(k, Len(P(x)))  i == Pick(x, r[1]) IN
            IF i # 0 THEN <<P(x), Occ(x), [Kids(x) EXCEPT ![i] = Ins(@, r)]>>
            ELSE AddKid(x, Leaf(r))
       ELSE IF Len(P(x)) > Len(k)
       THEN LET z == SplitAt(x, Len(k)) IN <<P(z), TRUE, Kids(z)>>
       ELSE <<P(x), TRUE, Kids(x)>>
Merge(x) == IF ~Occ(x) /\ Len(Kids(x)) = 1 /\ Variant # "nomerge"
            THEN LET c == Kids(x)[1] IN
                 <<P(x) \o P(c), Occ(c), IF Variant = "dropkids" THEN <<>> ELSE Kids(c)>>
            ELSE x
Settle(x) == LET z == Merge(x) IN IF ~Occ(z) /\ Kids(z) = <<>> THEN Nil ELSE z
RECURSIVE Rem(_, _)
Rem(x, k) ==
    IF x = Nil THEN Nil ELSE
    LET c == LCP(P(x), k) IN
    IF c < Len(P(x)) THEN x
    ELSE IF Len(k) = c THEN Settle(<<P(x), FALSE, Kids(x)>>)
    ELSE LET r == Cut(k, c)  i == Pick(x, r[1]) IN
         IF i = 0 THEN Settle(x)
         ELSE LET z == Rem(Kids(x)[i], r) IN
              Settle(<<P(x), Occ(x), IF z = Nil THEN SubSeq(Kids(x), 1, i - 1) \o SubSeq(Kids(x), i + 1, Len(Kids(x)))
                                     ELSE [Kids(x) EXCEPT ![i] = z]>>)
RECURSIVE Find(_, _)
Find(x, k) ==
    IF x = Nil THEN FALSE ELSE
    LET c == LCP(P(x), k) IN
    IF c < Len(P(x)) THEN FALSE
    ELSE IF Len(k) = c THEN Occ(x)
    ELSE LET i == Pick(x, Cut(k, c)[1]) IN i # 0 /\ Find(Kids(x)[i], Cut(k, c))
\* depth first: the node itself, then its children
RECURSIVE Walk(_, _)
RECURSIVE WalkKids(_, _)
Walk(x, pre) == IF x = Nil THEN <<>>
                ELSE (IF Occ(x) THEN <<pre \o P(x)>> ELSE <<>>) \o WalkKids(Kids(x), pre \o P(x))
WalkKids(ks, pre) == IF ks = <<>> THEN <<>> ELSE Walk(Head(ks), pre) \o WalkKids(Tail(ks), pre)
\* longest prefix: everything below the place where the query leaves the tree
RECURSIVE Prefix(_, _, _, _)
Prefix(x, k, index, pre) ==
    IF x = Nil THEN <<>> ELSE
    LET r == Cut(k, index)  c == LCP(P(x), r)  here == pre \o P(x) IN
    IF c < Len(P(x)) /\ c < Len(r)
    THEN IF index + c = 0 /\ Variant # "anything" THEN <<>> ELSE Walk(x, pre)
    ELSE IF Len(P(x)) < Len(r)
    THEN LET n == index + Len(P(x))  i == Pick(x, k[n + 1]) IN
         IF i # 0 THEN Prefix(Kids(x)[i], k, n, here)
         ELSE (IF Occ(x) THEN <<here>> ELSE <<>>) \o (IF n > 0 THEN WalkKids(Kids(x), here) ELSE <<>>)
    ELSE Walk(x, pre)
RECURSIVE Lowest(_, _)
Lowest(x, pre) == IF x = Nil THEN <<>> ELSE IF Occ(x) THEN <<pre \o P(x)>>
                  ELSE IF Kids(x) = <<>> THEN <<>> ELSE Lowest(Kids(x)[1], pre \o P(x))
RECURSIVE Highest(_, _)
Highest(x, pre) == IF x = Nil THEN <<>>
                   ELSE IF Kids(x) = <<>> THEN IF Occ(x) THEN <<pre \o P(x)>> ELSE <<>>
                   ELSE Highest(Kids(x)[Len(Kids(x))], pre \o P(x))

RECURSIVE Show(_)
Show(k) == IF k = <<>> THEN "" ELSE " " \o ToString(Head(k)) \o Show(Tail(k))
TInit == Init /\ t = <<<<>>, FALSE, <<>>>> /\ op = "init"
TInsert(k) == Insert(k, 0) /\ t' = Ins(t, k) /\ op' = "ins" \o Show(k)
TRemove(k) == Remove(k) /\ t' = Rem(t, k) /\ op' = "rem" \o Show(k)
TNext == \E k \in Keys : TInsert(k) \/ TRemove(k)
TSpec == TInit /\ [][TNext]_<<m, t, op>>
View == <<t, Stored>>
KeysDef == Strings(MaxLen)
\* prefixes of each other, forks at every depth, a fork at the root
KeysDeep == {<<>>, <<1>>, <<1, 1>>, <<1, 2>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 1, 2, 1>>, <<2, 1>>, <<2, 2, 1>>}
KeysWide == {<<>>, <<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2, 2>>, <<2, 2, 3>>, <<3, 1>>}
Recorded == "EDGES" \notin DOMAIN IOEnv
            \/ CSVWrite("%1$s;%2$s;%3$s", <<TLCFP(t), op', TLCFP(t')>>, IOEnv.EDGES)

RECURSIVE Compressed(_, _)   \* every inner node has a value or at least two children, except the root
Compressed(x, root) ==
    x = Nil \/ (/\ root \/ P(x) # <<>>
                /\ root \/ Occ(x) \/ Len(Kids(x)) > 1
                /\ \A i \in 1 .. Len(Kids(x)) - 1 : P(Kids(x)[i])[1] < P(Kids(x)[i + 1])[1]
                /\ \A i \in 1 .. Len(Kids(x)) : Compressed(Kids(x)[i], FALSE))
Refines ==
    /\ IsListing(Walk(t, <<>>), Stored, Cardinality(Stored)) /\ Len(Walk(t, <<>>)) = Cardinality(Stored)
    /\ \A k \in Strings(MaxLen + 1) :
         /\ Find(t, k) = Has(k)
         /\ LET B == Best(k)  q == Prefix(t, k, 0, <<>>) IN Len(q) = Cardinality(B) /\ IsListing(q, B, Len(q))
    /\ Lowest(t, <<>>) = Least(Stored) /\ Highest(t, <<>>) = Greatest(Stored)
Shape == Compressed(t, TRUE)
=============================================================================
