------------------------------ MODULE StackAbs ------------------------------
(***************************************************************************)
(* The concurrent stack as its callers may see it.  A configuration is a   *)
(* stack content together with the set of threads whose current call has   *)
(* taken effect.  A history is allowed when, after each of its events,     *)
(* some configuration explains everything seen so far.                     *)
(*                                                                         *)
(* Calls that leave the content alone take effect as soon as they may;     *)
(* calls that change it take effect no earlier than a returning call needs *)
(* them to (just-in-time linearization).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Changes(c) == c.o = "push" \/ (c.o = "pop" /\ c.r # 0)
Mutator(c) == c.o = "push" \/ c.o = "pop"
InFlight(calls) == Cardinality({t \in DOMAIN calls : Mutator(calls[t])})
Abs(x) == IF x < 0 THEN -x ELSE x
\* may the call of thread t take effect in configuration cf
CanLin(calls, cf, t) ==
    LET c == calls[t] IN
    IF t \in cf.done THEN FALSE
    ELSE IF c.o = "push" THEN TRUE
    ELSE IF c.o = "pop" THEN IF c.r = 0 THEN cf.st = <<>> ELSE cf.st # <<>> /\ Head(cf.st) = c.r
    ELSE IF c.o = "len" THEN c.r >= 0 /\ Abs(c.r - Len(cf.st)) <= InFlight(calls)
    ELSE IF c.r = 1 THEN Len(cf.st) <= InFlight(calls)
    ELSE Len(cf.st) + InFlight(calls) >= 1
\* every reading call that may take effect now does
Settle(calls, cf) ==
    [cf EXCEPT !.done = @ \union {t \in DOMAIN calls : ~Changes(calls[t]) /\ CanLin(calls, cf, t)}]
Lin(calls, cf, t) ==
    LET c == calls[t] IN
    Settle(calls, [done |-> cf.done \union {t},
                   st |-> IF c.o = "push" THEN <<c.v>> \o cf.st
                          ELSE IF Changes(c) THEN Tail(cf.st) ELSE cf.st])
(* Doomed(cf, v): value v cannot leave from on top of what lies below it (an optional pruning oracle). *)
CONSTANT Doomed(_, _)
RECURSIVE Reach(_, _, _, _)
Reach(calls, F, t, R) ==
    IF F = {} THEN R
    ELSE LET N == UNION {{Lin(calls, cf, u) : u \in {w \in DOMAIN calls :
                              /\ Changes(calls[w]) \/ w = t
                              /\ CanLin(calls, cf, w)
                              /\ (calls[w].o = "push" => ~Doomed(cf, calls[w].v))}} : cf \in F}
         IN Reach(calls, {cf \in N : t \notin cf.done}, t, R \union {cf \in N : t \in cf.done})
\* the configurations in which the call of t has taken effect
Needed(calls, S, t) == Reach(calls, {cf \in S : t \notin cf.done}, t, {cf \in S : t \in cf.done})
=============================================================================
