----------------------------- MODULE Transport -----------------------------
(* One connection to a remote task, seen from its readers (C11): P partitions *)
(* multiplexed on it, each with a script of items that the remote side has,   *)
(* some of them only after a gate opened.  What a reader gets depends on its  *)
(* own partition only, except that a failure of any partition is a failure of *)
(* the connection.  The buffer budget never shows in what a reader gets.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, Scripts, Budgets, MaxLen, AllowDrop, Balanced
VARIABLES script, budget, rel, rd, hist, picked
vars == <<script, budget, rel, rd, hist, picked>>
Ps == 0..(P - 1)
Bad == {"err", "panic"}
(* items: "b" a small batch, "B" a large one, "w" wait for the next gate, "err" the partition fails, "panic" it panics, "xerr" it cannot be started *)
Init == /\ script = [p \in Ps |-> <<>>] /\ budget = 0 /\ picked = 0
        /\ rel = [p \in Ps |-> 0] /\ rd = [p \in Ps |-> [st |-> "open", pos |-> 0, asked |-> FALSE]] /\ hist = <<>>
Gates(p) == Cardinality({i \in 1..Len(script[p]) : script[p][i] = "w"})
GatesUpTo(p, n) == Cardinality({i \in 1..n : script[p][i] = "w"})
Refused == \E p \in Ps : script[p] = <<"xerr">>
\* items of p that the remote side can produce by now
Avail(p) ==
  IF rel[p] >= Gates(p) THEN Len(script[p])
  ELSE CHOOSE n \in 0..Len(script[p]) : (GatesUpTo(p, n) <= rel[p]) /\ (n = Len(script[p]) \/ GatesUpTo(p, n + 1) > rel[p])
AllOut(p) == Avail(p) = Len(script[p])
Fails(p) == AllOut(p) /\ script[p] # <<>> /\ script[p][Len(script[p])] \in Bad
\* the next item of reader p that is no gate
NextPos(p) ==
  IF rd[p].pos < Len(script[p]) /\ script[p][rd[p].pos + 1] # "w" THEN rd[p].pos + 1
  ELSE LET c == {i \in (rd[p].pos + 1)..Len(script[p]) : script[p][i] # "w"}
       IN  IF c = {} THEN Len(script[p]) + 1 ELSE CHOOSE i \in c : \A j \in c : i <= j
Num(p, i) == i - GatesUpTo(p, i)
Sibling(p) == \E s \in Ps \ {p} : Fails(s) /\ rd[s].st # "dropped"
SiblingAny(p) == \E s \in Ps \ {p} : Fails(s)

Sees(p) ==
  LET i == NextPos(p) IN
  IF Refused THEN {"err"}
  ELSE IF i <= Avail(p) THEN (IF script[p][i] \in Bad THEN {"err"} ELSE {ToString(p * 1000 + Num(p, i))} \cup (IF SiblingAny(p) THEN {"err"} ELSE {}))
  ELSE IF i <= Len(script[p]) \/ ~AllOut(p) THEN (IF SiblingAny(p) THEN (IF Sibling(p) THEN {"err"} ELSE {"err", "pending"}) ELSE {"pending"})
  \* everything was read; the end may be announced at once or with the end of the whole connection
  ELSE IF SiblingAny(p) THEN {"err", "end"}
  ELSE IF \A s \in Ps : AllOut(s) THEN {"end"} ELSE {"end", "pending"}

(* Holding the producer back.  As long as the readers advance together nobody has to wait behind the batches of *)
(* a sibling, so the remote side may be ahead of what was read by the budget and by what is under way: the two   *)
(* queues of the server, a message in each hand, and the HTTP/2 windows, 2 MiB (Slack batches of 64 KiB).         *)
Slack == 48 + 8 * P
Consumed == Cardinality({k \in 1..Len(hist) : hist[k].op = "poll"})
Ahead == IF Balanced THEN Consumed + 1 + (budget \div 65536) + Slack ELSE -1
Step(s) == Len(hist) < MaxLen /\ hist' = Append(hist, [hold |-> Ahead] @@ s)
Poll(p) == LET x == Sees(p) IN
  /\ (Balanced => \A s \in Ps : rd[p].pos <= rd[s].pos)
  /\ rd[p].st = "open" /\ ("pending" \in x => ~rd[p].asked)
  /\ Step([op |-> "poll", p |-> p, exp |-> x])
  \* with an outcome that is left open the harness stops looking at this reader unless it got its batch
  /\ rd' = [rd EXCEPT ![p] = CASE x = {"pending"} -> [@ EXCEPT !.asked = TRUE]
                               [] Cardinality(x) > 1 -> [@ EXCEPT !.st = "blurred"]
                               [] x = {"err"} \/ x = {"end"} -> [@ EXCEPT !.st = "over"]
                               [] OTHER -> [@ EXCEPT !.pos = NextPos(p)]]
  /\ UNCHANGED <<script, budget, rel>>
Release(p) == /\ ~Refused /\ rel[p] < Gates(p)
              /\ Step([op |-> "release", p |-> p, exp |-> {}])
              /\ rel' = [rel EXCEPT ![p] = @ + 1] /\ rd' = [q \in Ps |-> [rd[q] EXCEPT !.asked = FALSE]] /\ UNCHANGED <<script, budget>>
Drop(p) == /\ AllowDrop /\ rd[p].st # "dropped"
           /\ Step([op |-> "drop", p |-> p, exp |-> {}])
           /\ rd' = [rd EXCEPT ![p].st = "dropped"] /\ UNCHANGED <<script, budget, rel>>
\* the environment is chosen step by step (TLC would otherwise enumerate all of it before a simulation)
Pick == \/ picked < P /\ \E s \in Scripts : script' = [script EXCEPT ![picked] = s] /\ picked' = picked + 1 /\ UNCHANGED <<budget, rel, rd, hist>>
        \/ picked = P /\ budget = 0 /\ budget' \in Budgets /\ UNCHANGED <<script, rel, rd, hist, picked>>
Acts == budget # 0 /\ UNCHANGED picked /\ \E p \in Ps : Poll(p) \/ Release(p) \/ Drop(p)
Next == Pick \/ Acts
Spec == Init /\ [][Next]_vars

Got(p) == SelectSeq(hist, LAMBDA s : s.op = "poll" /\ s.p = p)
InOrder == \A p \in Ps : rd[p].st = "open" => \A k \in 1..Len(Got(p)) : Got(p)[k].exp = {"pending"} \/ Got(p)[k].exp \subseteq {ToString(p * 1000 + j) : j \in 1..Len(script[p])}
CompleteEnd == \A p \in Ps : (rd[p].st = "over" /\ ~Refused /\ "end" \in Got(p)[Len(Got(p))].exp) => NextPos(p) > Len(script[p])
Final == budget # 0 /\ (Len(hist) = MaxLen \/ ~ENABLED Acts)
Emit == Final => PrintT("CASE " \o ToJson([P |-> P, budget |-> budget, script |-> [i \in 1..P |-> script[i - 1]], steps |-> hist]))
=============================================================================
