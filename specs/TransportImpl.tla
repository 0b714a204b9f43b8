--------------------------- MODULE TransportImpl ---------------------------
(* The client half of one connection, at the grain of its atomic steps: one   *)
(* demux loop moves messages from the wire into unbounded per-partition       *)
(* queues as long as the buffered amount is below the budget or some reader   *)
(* announced that it waits on an empty queue; every reader announces, looks,  *)
(* withdraws or wakes the loop (a one-permit notification); readers may leave *)
(* at any time.  A message weighs one; Budget 0 means "only when empty".      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, Wires, Budget, Reads
VARIABLES wire, q, mem, starving, permit, closed, d, r, got, overdraft
vars == <<wire, q, mem, starving, permit, closed, d, r, got, overdraft>>
Ps == 1..P
Left == Cardinality({p \in Ps : r[p] = "left"})
Init == /\ wire \in Wires /\ q = [p \in Ps |-> 0] /\ mem = 0 /\ starving = [p \in Ps |-> FALSE]
        /\ permit = FALSE /\ closed = FALSE /\ d = "idle" /\ r = [p \in Ps |-> "away"] /\ got = [p \in Ps |-> 0] /\ overdraft = FALSE

(* ---- demux ---- *)
First == d = "idle" /\ (\E p \in Ps : r[p] # "away") /\ d' = "check" /\ UNCHANGED <<wire, q, mem, starving, permit, closed, r, got, overdraft>>
Check == /\ d = "check"
         /\ LET full == mem > Budget  st == \E p \in Ps : starving[p] IN
            /\ d' = IF full /\ ~st THEN "gate" ELSE "pull"
            /\ overdraft' = (full /\ st)
         /\ UNCHANGED <<wire, q, mem, starving, permit, closed, r, got>>
Gate == d = "gate" /\ permit /\ permit' = FALSE /\ d' = "check" /\ UNCHANGED <<wire, q, mem, starving, closed, r, got, overdraft>>
Cancel == d \in {"check", "gate", "pull"} /\ Left = P /\ d' = "end" /\ closed' = TRUE /\ UNCHANGED <<wire, q, mem, starving, permit, r, got, overdraft>>
Eos == d = "pull" /\ wire = <<>> /\ d' = "end" /\ closed' = TRUE /\ UNCHANGED <<wire, q, mem, starving, permit, r, got, overdraft>>
Pull == d = "pull" /\ wire # <<>> /\ mem' = mem + 1 /\ starving' = [starving EXCEPT ![Head(wire)] = FALSE] /\ d' = "send" /\ UNCHANGED <<wire, q, permit, closed, r, got, overdraft>>
Send == /\ d = "send" /\ wire' = Tail(wire) /\ d' = "check"
        /\ LET p == Head(wire) IN
           IF r[p] = "left" THEN mem' = mem - 1 /\ permit' = TRUE /\ UNCHANGED <<q, r>>
           ELSE q' = [q EXCEPT ![p] = @ + 1] /\ r' = [r EXCEPT ![p] = IF @ = "asleep" THEN "want" ELSE @] /\ UNCHANGED <<mem, permit>>
        /\ UNCHANGED <<starving, closed, got, overdraft>>

(* ---- reader p ---- *)
Want(p) == r[p] = "away" /\ got[p] < Reads /\ r' = [r EXCEPT ![p] = "want"] /\ UNCHANGED <<wire, q, mem, starving, permit, closed, d, got, overdraft>>
Announce(p) == r[p] = "want" /\ starving' = [starving EXCEPT ![p] = TRUE] /\ r' = [r EXCEPT ![p] = "look"] /\ UNCHANGED <<wire, q, mem, permit, closed, d, got, overdraft>>
Look(p) == /\ r[p] = "look"
           /\ IF q[p] > 0 THEN q' = [q EXCEPT ![p] = @ - 1] /\ got' = [got EXCEPT ![p] = @ + 1] /\ r' = [r EXCEPT ![p] = "release"] /\ starving' = [starving EXCEPT ![p] = FALSE]
              ELSE IF closed THEN r' = [r EXCEPT ![p] = "done"] /\ starving' = [starving EXCEPT ![p] = FALSE] /\ UNCHANGED <<q, got>>
              ELSE r' = [r EXCEPT ![p] = "notify"] /\ UNCHANGED <<q, got, starving>>
           /\ UNCHANGED <<wire, mem, permit, closed, d, overdraft>>
Release(p) == r[p] = "release" /\ mem' = mem - 1 /\ permit' = TRUE /\ r' = [r EXCEPT ![p] = "away"] /\ UNCHANGED <<wire, q, starving, closed, d, got, overdraft>>
\* between the empty look and the notification the message may already have arrived: the waker fires then
Notify(p) == r[p] = "notify" /\ permit' = TRUE /\ r' = [r EXCEPT ![p] = IF q[p] > 0 \/ closed THEN "want" ELSE "asleep"] /\ UNCHANGED <<wire, q, mem, starving, closed, d, got, overdraft>>
Wake(p) == r[p] = "asleep" /\ closed /\ r' = [r EXCEPT ![p] = "want"] /\ UNCHANGED <<wire, q, mem, starving, permit, closed, d, got, overdraft>>
Leave(p) == /\ r[p] \in {"away", "asleep"} /\ starving' = [starving EXCEPT ![p] = FALSE] /\ r' = [r EXCEPT ![p] = "left"]
            /\ mem' = mem - q[p] /\ q' = [q EXCEPT ![p] = 0] /\ permit' = (permit \/ q[p] > 0)
            /\ UNCHANGED <<wire, closed, d, got, overdraft>>

Demux == First \/ Check \/ Gate \/ Cancel \/ Eos \/ Pull \/ Send
Reader(p) == Announce(p) \/ Look(p) \/ Release(p) \/ Notify(p) \/ Wake(p)
Next == Demux \/ \E p \in Ps : Reader(p) \/ Want(p) \/ Leave(p)
\* whether a reader comes back or leaves is up to it: no fairness for Want and Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Demux) /\ \A p \in Ps : WF_vars(Reader(p))

Total(p) == Cardinality({i \in 1..Len(wire) : wire[i] = p})
MemExact == mem = (LET RECURSIVE S(_) S(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN q[x] + S(X \ {x}) IN S(Ps))
                 + Cardinality({p \in Ps : r[p] = "release"}) + (IF d = "send" THEN 1 ELSE 0)
\* beyond the budget (and the one message that may always pass) only for a reader that waits on an empty queue
Bounded == mem > Budget + 1 => overdraft \/ d # "send"
BoundedGrowth == [][(d = "pull" /\ d' = "send" /\ ~overdraft) => mem <= Budget]_vars
\* a reader that waits is served or told the end, whatever its siblings do
Served == \A p \in Ps : (r[p] \in {"want", "look", "notify", "asleep"}) ~> (r[p] \in {"release", "away", "done", "left"})
Cancelled == (Left = P) ~> (d \in {"idle", "end"})
=============================================================================
