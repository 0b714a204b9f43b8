----------------------------- MODULE Broadcast -----------------------------
(* One operator, P input partitions, N declared readers of each of them (C03). *)
(* The input of a partition is a script of items that become available one by *)
(* one (Release).  What a reader sees depends only on the script and on how   *)
(* much of it is available, never on when it was opened, on how fast it reads *)
(* or on what happens to the other readers.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS P, N, Scripts, MaxLen, AllowDrop
VARIABLES script, rel, used, rd, plan, hist
vars == <<script, rel, used, rd, plan, hist>>

Parts == 0..(P - 1)
Readers == Parts \X (0..N)             \* reader N of a partition is one too many
\* item kinds: "b" a batch, "err" the input fails, "panic" it panics, "xerr" it cannot even be started
IsX(p) == script[p] = <<"xerr">>
Avail(p) == IF rel[p] > Len(script[p]) THEN Len(script[p]) ELSE rel[p]
Ended(p) == rel[p] > Len(script[p])
Val(p, k) == p * 10 + k

Init == /\ script \in [Parts -> Scripts]
        /\ rel = [p \in Parts |-> 0] /\ used = [p \in Parts |-> 0]
        /\ rd = [r \in Readers |-> [st |-> "none", pos |-> 0, asked |-> -1]]
        /\ plan = TRUE /\ hist = <<>>

Step(s) == Len(hist) < MaxLen /\ hist' = Append(hist, s)

Open(r) ==
  LET p == r[1] IN
  /\ plan /\ rd[r].st = "none" /\ \A c \in 0..(r[2] - 1): c = N \/ rd[<<p, c>>].st # "none"
  /\ LET ok == ~IsX(p) /\ used[p] < N IN
     /\ Step([op |-> "open", p |-> p, c |-> r[2], exp |-> IF IsX(p) THEN "xerr" ELSE IF ok THEN "ok" ELSE "toomany"])
     /\ rd' = [rd EXCEPT ![r].st = IF ok THEN "open" ELSE "refused"]
     /\ used' = [used EXCEPT ![p] = IF ok THEN @ + 1 ELSE @]
  /\ UNCHANGED <<script, rel, plan>>

Release(p) ==
  /\ ~IsX(p) /\ ~Ended(p)
  /\ (rel[p] > 0 => script[p][rel[p]] \notin {"err", "panic"})   \* nothing follows a failure
  /\ Step([op |-> "release", p |-> p, c |-> 0, exp |-> ""])
  /\ rel' = [rel EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<script, used, rd, plan>>

\* what a reader at position pos gets
Sees(p, pos) ==
  IF pos < Avail(p) THEN (IF script[p][pos + 1] = "b" THEN ToString(Val(p, pos + 1)) ELSE "err")
  ELSE IF Ended(p) \/ (pos > 0 /\ script[p][pos] # "b") THEN "end"
  ELSE "pending"

Poll(r) ==
  LET p == r[1] x == Sees(p, rd[r].pos) IN
  /\ rd[r].st = "open" /\ (x = "pending" => rd[r].asked # rd[r].pos)
  /\ Step([op |-> "poll", p |-> p, c |-> r[2], exp |-> x])
  /\ rd' = [rd EXCEPT ![r] = [st |-> IF x = "end" THEN "done" ELSE "open", pos |-> IF x \in {"pending", "end"} THEN @.pos ELSE @.pos + 1,
                              asked |-> IF x = "pending" THEN @.pos ELSE @.asked]]
  /\ UNCHANGED <<script, rel, used, plan>>

Drop(r) == /\ AllowDrop /\ rd[r].st = "open"
           /\ Step([op |-> "drop", p |-> r[1], c |-> r[2], exp |-> ""])
           /\ rd' = [rd EXCEPT ![r].st = "dropped"] /\ UNCHANGED <<script, rel, used, plan>>
DropPlan == /\ AllowDrop /\ plan /\ \E r \in Readers: rd[r].st # "none"
            /\ Step([op |-> "dropplan", p |-> 0, c |-> 0, exp |-> ""])
            /\ plan' = FALSE /\ UNCHANGED <<script, rel, used, rd>>

Acts == \/ \E r \in Readers: Open(r) \/ Poll(r) \/ Drop(r)
        \/ \E p \in Parts: Release(p)
        \/ DropPlan
Next == Acts
Spec == Init /\ [][Next]_vars

(* ------------------ what C03 says, on the model ------------------ *)
\* every reader has got exactly the prefix of the script that its position says (positions never skip or repeat)
Got(r) == SelectSeq(hist, LAMBDA s: s.op = "poll" /\ s.p = r[1] /\ s.c = r[2] /\ s.exp \notin {"pending", "end"})
InOrder == \A r \in Readers: LET g == Got(r) IN
   /\ Len(g) = rd[r].pos
   /\ \A k \in 1..Len(g): g[k].exp = (IF script[r[1]][k] = "b" THEN ToString(Val(r[1], k)) ELSE "err")
Complete == \A r \in Readers: rd[r].st = "done" => rd[r].pos = Len(script[r[1]])
Declared == \A p \in Parts: used[p] <= N

\* no reader ever has to wait for another one: what it can do next depends on its own position only
Final == Len(hist) = MaxLen \/ ~ENABLED Acts
Emit == Final => PrintT("CASE " \o ToJson([P |-> P, N |-> N, script |-> [i \in 1..P |-> script[i - 1]], steps |-> hist,
                                          started |-> [i \in 1..P |-> IF \E c \in 0..N: rd[<<i - 1, c>>].st # "none" THEN 1 ELSE 0]]))
=============================================================================
