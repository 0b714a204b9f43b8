------------------------------ MODULE SamplerImpl ------------------------------
(* The sampler as it is implemented, above partitions with every possible script of rows ("r"), waits ("w")   *)
(* and failures ("e"): a task drains what is ready, reports once through a guard that also speaks when the    *)
(* task fails, and hands buffer and stream over; a reader of any partition silences the reports of its task.   *)
(* The coordinator starts the consumer when enough reports with rows are there, or all, or no more can come.    *)
(* Everything that happens must be what Sampler allows, and nothing may get stuck.                              *)
EXTENDS Sampler
CONSTANTS T, P, MaxLen, Bug
VARIABLES script, at, buf, phase, sent, omit, opened, over, dec, s, last
vars == <<script, at, buf, phase, sent, omit, opened, over, dec, s, last>>
K == (0..(T - 1)) \X (0..(P - 1))
X == [kind |-> "gather", cap |-> T, P |-> P, solo |-> FALSE]
Scripts == UNION {[1..n -> {"r", "w", "e"}] : n \in 0..MaxLen}
\* nothing comes after a failure
Sane(f) == \A i \in DOMAIN f : f[i] = "e" => i = Len(f)
Init == /\ script \in [K -> {f \in Scripts : Sane(f)}]
        /\ at = [k \in K |-> 0] /\ buf = [k \in K |-> <<>>] /\ phase = [k \in K |-> "new"] /\ sent = [k \in K |-> FALSE]
        /\ omit = [t \in 0..(T - 1) |-> FALSE] /\ opened = {} /\ over = {} /\ dec = FALSE /\ s = Fresh /\ last = ""
Row(k, i) == <<k[1], k[2], i>>
\* judged events
Fold(evs) == FoldLeft(LAMBDA a, e : IF a.w # "" THEN a ELSE [w |-> Judge(X, a.s, e), s |-> IF Judge(X, a.s, e) = "" THEN After(a.s, e) ELSE a.s], [w |-> last, s |-> s], evs)
Do(evs) == LET r == Fold(evs) IN last' = r.w /\ s' = r.s
Ev(kk, k) == [k |-> kk, t |-> k[1], p |-> k[2]]
OutEv(k, i) == CASE script[k][i] = "r" -> <<[k |-> "out", t |-> k[1], p |-> k[2], row |-> Row(k, i)]>> [] script[k][i] = "e" -> <<Ev("oerr", k)>> [] OTHER -> <<>>
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
NRows(q) == Len(SelectSeq(q, LAMBDA x : x # 0))

SetUp(t) == /\ t \notin s.plans
            /\ phase' = [k \in K |-> IF k[1] = t THEN "sampling" ELSE phase[k]]
            /\ Do(<<[k |-> "plan", t |-> t, tc |-> T]>>)
            /\ UNCHANGED <<script, at, buf, sent, omit, opened, over, dec>>
\* a wait comes to its end
Wake(k) == /\ phase[k] \in {"sampling", "handed"} /\ at[k] < Len(script[k]) /\ script[k][at[k] + 1] = "w"
           /\ (phase[k] = "sampling" \/ k \in opened)
           /\ at' = [at EXCEPT ![k] = @ + 1]
           /\ UNCHANGED <<script, buf, phase, sent, omit, opened, over, dec, s, last>>
\* the first items that are ready together
Until(k) == LET stops == {i \in (at[k] + 1)..Len(script[k]) : script[k][i] = "w"} IN IF stops = {} THEN Len(script[k]) ELSE Min(stops) - 1
Drain(k) ==
  /\ phase[k] = "sampling"
  /\ at[k] < Len(script[k]) => script[k][at[k] + 1] # "w"
  /\ LET u == Until(k)
         got == [i \in 1..(u - at[k]) |-> IF script[k][at[k] + i] = "e" THEN 0 ELSE at[k] + i]
         failed == \E i \in DOMAIN got : got[i] = 0
         ended == u = Len(script[k]) /\ ~failed
         keep == IF Bug = "lost" /\ failed THEN <<0>> ELSE IF Bug = "peek" /\ got # <<>> THEN Tail(got) ELSE got
         report == [k |-> "load", t |-> k[1], p |-> k[2], rows |-> IF failed THEN 0 ELSE NRows(got), eos |-> ended]
         mute == omit[k[1]] \/ (Bug = "silent" /\ failed)
         evs == Cat([i \in 1..(u - at[k]) |-> OutEv(k, at[k] + i)]) \o (IF ended THEN <<Ev("oend", k)>> ELSE <<>>) IN
     /\ at' = [at EXCEPT ![k] = u] /\ buf' = [buf EXCEPT ![k] = keep] /\ phase' = [phase EXCEPT ![k] = IF failed \/ ended THEN "done" ELSE "handed"]
     /\ sent' = [sent EXCEPT ![k] = ~mute]
     /\ Do(IF mute THEN evs ELSE Append(evs, report))
  /\ UNCHANGED <<script, omit, opened, over, dec>>
\* every partition of the task has spoken, or never will
Leos(t) == /\ t \in s.plans /\ t \notin s.leos /\ \A p \in 0..(P - 1) : phase[<<t, p>>] \in {"handed", "done"}
           /\ Do(<<[k |-> "leos", t |-> t]>>) /\ UNCHANGED <<script, at, buf, phase, sent, omit, opened, over, dec>>
Decide == /\ ~dec /\ s.plans = 0..(T - 1)
          /\ \/ \E k \in s.loads : buf[k] # <<>> /\ buf[k] # <<0>>
             \/ s.loads = K \/ s.leos = 0..(T - 1)
          /\ dec' = TRUE /\ UNCHANGED <<script, at, buf, phase, sent, omit, opened, over, s, last>>
Open(k) == /\ dec /\ k \notin opened /\ opened' = opened \cup {k} /\ omit' = [omit EXCEPT ![k[1]] = TRUE]
           /\ Do(<<[k |-> "req", t |-> k[1]]>>) /\ UNCHANGED <<script, at, buf, phase, sent, over, dec>>
Dst(k) == <<0, k[1] * P + k[2]>>
In(k, x) == IF x = 0 THEN Ev("ierr", Dst(k)) ELSE [k |-> "in", t |-> 0, p |-> Dst(k)[2], row |-> Row(k, x)]
\* the reader: first what was kept, then the stream itself
Read(k) ==
  /\ k \in opened /\ k \notin over /\ phase[k] \in {"handed", "done"}
  /\ IF buf[k] # <<>> THEN /\ Do(<<In(k, Head(buf[k]))>>) /\ buf' = [buf EXCEPT ![k] = Tail(@)] /\ over' = (IF Head(buf[k]) = 0 THEN over \cup {k} ELSE over) /\ UNCHANGED <<at, phase>>
     ELSE IF phase[k] = "done" THEN Do(<<Ev("iend", Dst(k))>>) /\ over' = over \cup {k} /\ UNCHANGED <<at, buf, phase>>
     ELSE IF at[k] = Len(script[k]) THEN Do(<<Ev("oend", k)>>) /\ phase' = [phase EXCEPT ![k] = "done"] /\ UNCHANGED <<at, buf, over>>
     ELSE /\ script[k][at[k] + 1] # "w" /\ Do(OutEv(k, at[k] + 1)) /\ at' = [at EXCEPT ![k] = @ + 1]
          /\ buf' = [buf EXCEPT ![k] = <<IF script[k][at[k] + 1] = "e" THEN 0 ELSE at[k] + 1>>] /\ UNCHANGED <<over, phase>>
  /\ UNCHANGED <<script, sent, omit, opened, dec>>
Next == (\E t \in 0..(T - 1) : SetUp(t) \/ Leos(t)) \/ (\E k \in K : Wake(k) \/ Drain(k) \/ Open(k) \/ Read(k)) \/ Decide
Spec == Init /\ [][Next]_vars
Allowed == last = ""
\* nothing is stuck: when nothing more can happen, everything was delivered and every task said its last word
Finished == ENABLED Next \/ (over = K /\ s.leos = 0..(T - 1) /\ (s.oerr = {} => Missing(X, s) = ""))
================================================================================
