--------------------------- MODULE TaskLifecycle ---------------------------
(* One worker, several task keys (C08).  A submission brings a plan for a key  *)
(* and is set up asynchronously; readers ask for partitions of a key at any    *)
(* time.  The first submission that finishes its set-up decides what the key   *)
(* stands for; a later one is refused and changes nothing; when the            *)
(* coordinator's side of the accepted submission ends the key is forgotten.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NK, NS, NR, MaxLen, Parts, Kinds, Grpc
VARIABLES sub, rd, ent, touched, ticks, dead, hist
vars == <<sub, rd, ent, touched, ticks, dead, hist>>

Keys == 1..NK
Subs == 1..NS
Readers == 1..NR
None == <<"none", 0>>

Init == /\ sub = [i \in Subs |-> [k |-> 0, kind |-> "", st |-> "none"]]
        /\ rd = [r \in Readers |-> [k |-> 0, a |-> 0, b |-> 0, st |-> "none", late |-> FALSE]]
        /\ ent = [k \in Keys |-> None] /\ touched = {} /\ ticks = 0 /\ dead = FALSE /\ hist = <<>>

Pending(k) == {i \in Subs : sub[i].k = k /\ sub[i].st = "pending"}
OnKey(k) == {i \in Subs : sub[i].k = k}
Live == {k \in Keys : ent[k][1] = "plan"}

(* what is observable after a step: every submission, every reader, the number of tasks the worker holds *)
Obs(s, r, e, t) ==
  [subs |-> [i \in Subs |-> s[i].st], rds |-> [q \in Readers |-> r[q].st],
   lo |-> Cardinality({k \in Keys : e[k][1] = "plan"}),
   \* keys that were named and never got a plan, or whose set-up failed, may be remembered for a while
   hi |-> Cardinality({k \in t : e[k][1] # "gone"}) + Cardinality({k \in t : e[k][1] = "gone" /\ \E q \in Readers : r[q].k = k /\ r[q].late})]

Step(op, i, arg, s, r, e, t) ==
  /\ Len(hist) < MaxLen
  /\ sub' = s /\ rd' = r /\ ent' = e /\ touched' = t
  /\ hist' = Append(hist, [op |-> op, i |-> i, arg |-> arg, exp |-> Obs(s, r, e, t)])

(* what a reader of partitions a..b-1 gets from a key that stands for e *)
Ans(e, a, b) == CASE e[1] = "plan" -> IF b > Parts THEN "err" ELSE "rows:" \o ToString(e[2])
                  [] e[1] = "err" -> IF sub[e[2]].kind = "decode" THEN "err" ELSE "cause:" \o ToString(e[2])
                  [] e[1] = "gone" -> "late"     \* may wait or fail at once, but never gets rows
                  [] OTHER -> "pending"

Submit(i, k, kind) ==
  /\ sub[i].st = "none" /\ \A j \in 1..(i - 1) : sub[j].st # "none"
  /\ ent[k][1] \in {"none", "plan"} /\ Cardinality(OnKey(k)) < 3
  /\ ~\E j \in OnKey(k) : sub[j].st = "vanished"
  /\ Step("submit", i, [k |-> k, kind |-> kind, how |-> ""],
          [sub EXCEPT ![i] = [k |-> k, kind |-> kind, st |-> IF ent[k][1] = "plan" THEN "early" ELSE "pending"]],
          rd, ent, touched \cup {k})
  /\ UNCHANGED ticks

(* the gate in the session builder opens and the set-up runs to its end *)
Setup(i) ==
  LET k == sub[i].k IN
  /\ sub[i].st \in {"pending", "early"}
  \* what becomes of a key whose first set-up failed while another one is under way is left open
  /\ (ent[k] = None /\ sub[i].kind # "ok" => Pending(k) = {i})
  /\ LET taken == ent[k][1] = "plan"
         st == IF taken THEN "refused" ELSE IF sub[i].kind = "ok" THEN "ok" ELSE IF sub[i].kind = "decode" THEN "err" ELSE "cause:" \o ToString(i)
         e == IF taken THEN ent[k] ELSE IF sub[i].kind = "ok" THEN <<"plan", i>> ELSE <<"err", i>> IN
     Step("setup", i, [k |-> k, kind |-> "", how |-> ""],
          [j \in Subs |-> IF j = i THEN [sub[i] EXCEPT !.st = st] ELSE IF j \in Pending(k) THEN [sub[j] EXCEPT !.st = "early"] ELSE sub[j]],
          [q \in Readers |-> IF rd[q].k = k /\ rd[q].st = "pending" THEN [rd[q] EXCEPT !.st = Ans(e, rd[q].a, rd[q].b)] ELSE rd[q]],
          [ent EXCEPT ![k] = e], touched)
  /\ UNCHANGED ticks

Exec(r, k, a, b) ==
  /\ rd[r].st = "none" /\ \A q \in 1..(r - 1) : rd[q].st # "none"
  /\ Step("exec", r, [k |-> k, a |-> a, b |-> b], sub,
          [rd EXCEPT ![r] = [k |-> k, a |-> a, b |-> b, st |-> Ans(ent[k], a, b), late |-> ent[k][1] = "gone"]], ent, touched \cup {k})
  /\ UNCHANGED ticks

(* a waiting reader loses interest *)
Leave(r) == /\ rd[r].st = "pending"
            /\ Step("leave", r, [k |-> rd[r].k], sub, [rd EXCEPT ![r].st = "left"], ent, touched) /\ UNCHANGED ticks

(* a short time passes, or a time that no reader may be kept waiting for *)
Nap == /\ ticks < 2 /\ \E r \in Readers : rd[r].st = "pending"
       /\ ticks' = ticks + 1 /\ Step("nap", 0, [k |-> 0], sub, rd, ent, touched)
Tick == /\ \E r \in Readers : rd[r].st \in {"pending", "late"}
        /\ ticks' = 0
        /\ Step("tick", 0, [k |-> 0], sub, [q \in Readers |-> IF rd[q].st \in {"pending", "late"} THEN [rd[q] EXCEPT !.st = "err"] ELSE rd[q]], ent, touched)

Hows == IF Grpc THEN {"eos", "drop"} ELSE {"eos", "drop", "fail"}
End(i, how) ==
  LET k == sub[i].k IN
  /\ sub[i].st = "ok" /\ ~\E j \in OnKey(k) : sub[j].st \in {"pending", "early"}
  /\ Step("end", i, [k |-> k, how |-> how], [sub EXCEPT ![i].st = "ended"], rd, [ent EXCEPT ![k] = <<"gone", i>>], touched)
  /\ UNCHANGED ticks
(* the coordinator disappears before the plan is set up: nobody else is disturbed *)
Vanish(i) ==
  /\ sub[i].st \in {"pending", "early"} /\ Cardinality(Pending(sub[i].k)) <= 1
  /\ Step("vanish", i, [k |-> sub[i].k, how |-> ""], [sub EXCEPT ![i].st = "vanished"], rd, ent, touched)
  /\ UNCHANGED ticks

(* the process on the other side of the connection dies; nothing can be said to the worker any more *)
Crash ==
  /\ Grpc /\ ~dead /\ \E i \in Subs : sub[i].st = "ok"
  /\ \A i \in Subs : sub[i].st \notin {"pending", "early"}
  /\ Step("crash", 0, [k |-> 0], [i \in Subs |-> IF sub[i].st = "ok" THEN [sub[i] EXCEPT !.st = "crashed"] ELSE sub[i]],
          [q \in Readers |-> IF rd[q].st \in {"pending", "late"} THEN [rd[q] EXCEPT !.st = "err"] ELSE rd[q]],
          [k \in Keys |-> IF ent[k][1] = "plan" THEN <<"gone", ent[k][2]>> ELSE ent[k]], touched)
  /\ dead' = TRUE /\ UNCHANGED ticks

Alive ==
        \/ \E i \in Subs, k \in Keys, kind \in Kinds : Submit(i, k, kind)
        \/ \E i \in Subs : Setup(i) \/ Vanish(i) \/ \E h \in Hows : End(i, h)
        \/ \E r \in Readers, k \in Keys, ab \in {<<0, 1>>, <<Parts - 1, Parts>>, <<0, Parts>>, <<0, Parts + 1>>} : Exec(r, k, ab[1], ab[2])
        \/ \E r \in Readers : Leave(r)
        \/ Nap \/ Tick
Acts == (~dead /\ Alive /\ dead' = dead) \/ Crash
Next == Acts
Spec == Init /\ [][Next]_vars

(* ---------------- what C08 says, on the model ---------------- *)
OneAccepted == \A k \in Keys : Cardinality({i \in OnKey(k) : sub[i].st \in {"ok", "ended", "crashed"}}) <= 1
RightPlan == \A r \in Readers, i \in Subs : rd[r].st = "rows:" \o ToString(i) => sub[i].k = rd[r].k /\ sub[i].st \in {"ok", "ended", "crashed"}
Forgotten == \A i \in Subs : sub[i].st \in {"ended", "crashed"} => ent[sub[i].k] = <<"gone", i>>
Undisturbed == [][\A i \in Subs : sub[i].st = "ok" => sub'[i].st \in {"ok", "ended", "crashed"}]_vars

Final == Len(hist) = MaxLen \/ ~ENABLED Acts
Emit == Final => PrintT("CASE " \o ToJson([grpc |-> Grpc, parts |-> Parts, nk |-> NK, ns |-> NS, nr |-> NR, steps |-> hist]))
=============================================================================
