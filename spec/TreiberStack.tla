---------------------------- MODULE TreiberStack ----------------------------
(***************************************************************************)
(* The design of sync::Stack: a linked list of nodes changed by compare-   *)
(* and-set of its head, a counter next to it, and epoch-based reclamation. *)
(* One step per access to shared memory.  Node addresses are reused after  *)
(* they are freed, so the ABA problem is in the model.                     *)
(*                                                                         *)
(* Refines the abstract stack: `abs` changes exactly at the successful     *)
(* compare-and-set, and equals the linked list at all times.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Addrs, MaxOps,
          Variant  \* "code", or a flawed design: "store", "eager", "lenlate", "nexttwice"
VARIABLES head, next, val, mem, pinned, blockers, len,  \* shared memory and reclamation
          pc, op, h, n, node, ops,                        \* per thread
          abs, out, used                                  \* ghost
vars == <<head, next, val, mem, pinned, blockers, len, pc, op, h, n, node, ops, abs, out, used>>
Null == 0
None == 0
RECURSIVE Chain(_, _)
Chain(a, k) == IF a = Null \/ k = 0 THEN <<>> ELSE <<val[a]>> \o Chain(next[a], k - 1)

Init == /\ head = Null
        /\ next = [a \in Addrs |-> Null] /\ val = [a \in Addrs |-> 0] /\ mem = [a \in Addrs |-> "free"]
        /\ pinned = {} /\ blockers = [a \in Addrs |-> {}] /\ len = 0
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "none"]
        /\ h = [t \in Threads |-> Null] /\ n = [t \in Threads |-> Null] /\ node = [t \in Threads |-> Null]
        /\ ops = [t \in Threads |-> 0] /\ abs = <<>> /\ out = <<>> /\ used = 0

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
CallPush(t) == /\ pc[t] = "idle" /\ ops[t] < MaxOps
               /\ \E a \in Addrs :
                    /\ mem[a] = "free" /\ \A b \in Addrs : mem[b] = "free" => a <= b
                    /\ mem' = [mem EXCEPT ![a] = "live"] /\ node' = [node EXCEPT ![t] = a]
                    /\ val' = [val EXCEPT ![a] = used + 1] /\ next' = [next EXCEPT ![a] = Null]
               /\ used' = used + 1 /\ op' = [op EXCEPT ![t] = "push"] /\ ops' = [ops EXCEPT ![t] = @ + 1]
               /\ pinned' = pinned \union {t}
               /\ Go(t, IF Variant = "lenlate" THEN "pload" ELSE "pcount")
               /\ UNCHANGED <<head, blockers, len, h, n, abs, out>>
PCount(t) == /\ pc[t] = "pcount" /\ len' = len + 1 /\ Go(t, IF Variant = "lenlate" THEN "unpin" ELSE "pload")
             /\ UNCHANGED <<head, next, val, mem, pinned, blockers, op, h, n, node, ops, abs, out, used>>
PLoad(t) == /\ pc[t] = "pload" /\ h' = [h EXCEPT ![t] = head] /\ Go(t, "plink")
            /\ UNCHANGED <<head, next, val, mem, pinned, blockers, len, op, n, node, ops, abs, out, used>>
PLink(t) == /\ pc[t] = "plink" /\ next' = [next EXCEPT ![node[t]] = h[t]] /\ Go(t, "pcas")
            /\ UNCHANGED <<head, val, mem, pinned, blockers, len, op, h, n, node, ops, abs, out, used>>
PCas(t) == /\ pc[t] = "pcas"
           /\ IF head = h[t] \/ Variant = "store"
              THEN /\ head' = node[t] /\ abs' = <<val[node[t]]>> \o abs
                   /\ Go(t, IF Variant = "lenlate" THEN "pcount" ELSE "unpin")
              ELSE /\ UNCHANGED <<head, abs>> /\ Go(t, "pload")
           /\ UNCHANGED <<next, val, mem, pinned, blockers, len, op, h, n, node, ops, out, used>>
CallPop(t) == /\ pc[t] = "idle" /\ ops[t] < MaxOps
              /\ op' = [op EXCEPT ![t] = "pop"] /\ ops' = [ops EXCEPT ![t] = @ + 1]
              /\ pinned' = pinned \union {t} /\ Go(t, "oload")
              /\ UNCHANGED <<head, next, val, mem, blockers, len, h, n, node, abs, out, used>>
\* an empty stack is reported at the very moment it is seen empty
OLoad(t) == /\ pc[t] = "oload" /\ h' = [h EXCEPT ![t] = head]
            /\ IF head = Null THEN out' = Append(out, <<None, abs = <<>>>>) /\ Go(t, "unpin")
               ELSE out' = out /\ Go(t, "onext")
            /\ UNCHANGED <<head, next, val, mem, pinned, blockers, len, op, n, node, ops, abs, used>>
ONext(t) == /\ pc[t] = "onext" /\ n' = [n EXCEPT ![t] = next[h[t]]] /\ Go(t, "ocas")
            /\ UNCHANGED <<head, next, val, mem, pinned, blockers, len, op, h, node, ops, abs, out, used>>
OCas(t) == /\ pc[t] = "ocas"
           /\ IF head = h[t]
              THEN /\ head' = n[t]
                   /\ out' = Append(out, <<val[h[t]], abs # <<>> /\ Head(abs) = val[h[t]]>>)
                   /\ abs' = IF abs = <<>> THEN abs ELSE Tail(abs)
                   /\ Go(t, "ocount")
              ELSE UNCHANGED <<head, abs, out>> /\ Go(t, IF Variant = "nexttwice" THEN "ostale" ELSE "oload")
           /\ UNCHANGED <<next, val, mem, pinned, blockers, len, op, h, n, node, ops, used>>
\* flawed retry that reloads the head but keeps the old successor
OStale(t) == /\ pc[t] = "ostale" /\ h' = [h EXCEPT ![t] = head]
             /\ IF head = Null THEN out' = Append(out, <<None, abs = <<>>>>) /\ Go(t, "unpin")
                ELSE out' = out /\ Go(t, "ocas")
             /\ UNCHANGED <<head, next, val, mem, pinned, blockers, len, op, n, node, ops, abs, used>>
OCount(t) == /\ pc[t] = "ocount" /\ len' = len - 1 /\ Go(t, "oretire")
             /\ UNCHANGED <<head, next, val, mem, pinned, blockers, op, h, n, node, ops, abs, out, used>>
ORetire(t) == /\ pc[t] = "oretire"
              /\ mem' = [mem EXCEPT ![h[t]] = IF Variant = "eager" THEN "free" ELSE "retired"]
              /\ blockers' = [blockers EXCEPT ![h[t]] = pinned \ {t}]
              /\ Go(t, "unpin")
              /\ UNCHANGED <<head, next, val, pinned, len, op, h, n, node, ops, abs, out, used>>
\* leaving the pinned section: this thread no longer holds up any reclamation
Unpin(t) == /\ pc[t] = "unpin" /\ pinned' = pinned \ {t}
            /\ blockers' = [a \in Addrs |-> blockers[a] \ {t}]
            /\ h' = [h EXCEPT ![t] = Null] /\ n' = [n EXCEPT ![t] = Null] /\ node' = [node EXCEPT ![t] = Null]
            /\ op' = [op EXCEPT ![t] = "none"] /\ Go(t, "idle")
            /\ UNCHANGED <<head, next, val, mem, len, ops, abs, out, used>>
Free(a) == /\ mem[a] = "retired" /\ blockers[a] = {} /\ ~ \E t \in pinned : h[t] = a /\ pc[t] = "unpin"
           /\ mem' = [mem EXCEPT ![a] = "free"]
           /\ UNCHANGED <<head, next, val, pinned, blockers, len, pc, op, h, n, node, ops, abs, out, used>>
Next == (\E t \in Threads : CallPush(t) \/ PCount(t) \/ PLoad(t) \/ PLink(t) \/ PCas(t) \/ CallPop(t) \/ OLoad(t)
                            \/ ONext(t) \/ OCas(t) \/ OStale(t) \/ OCount(t) \/ ORetire(t) \/ Unpin(t))
        \/ \E a \in Addrs : Free(a)
Spec == Init /\ [][Next]_vars

\* the linked list is the abstract stack
Refines == Chain(head, Cardinality(Addrs) + 1) = abs
\* every pop answered what the abstract stack held at its compare-and-set (or load)
Answers == \A i \in 1 .. Len(out) : out[i][2]
Once == \A i, j \in 1 .. Len(out) : i # j /\ out[i][1] # None => out[i][1] # out[j][1]
\* nothing that has been freed is reached, by the list or by a thread about to read it
NoDangling == /\ head # Null => mem[head] = "live"
              /\ \A t \in Threads : pc[t] = "onext" => mem[h[t]] # "free"
InFlight == Cardinality({t \in Threads : op[t] # "none"})
LenBounds == len >= 0 /\ len - Len(abs) <= InFlight /\ Len(abs) - len <= InFlight
Quiet == (\A t \in Threads : op[t] = "none") => len = Len(abs)
Inv == Refines /\ Answers /\ Once /\ NoDangling /\ LenBounds /\ Quiet
Sym == Permutations(Threads)
=============================================================================
