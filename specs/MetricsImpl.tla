----------------------------- MODULE MetricsImpl -----------------------------
(* The collection of metrics, in the atomic steps of the code. A task's worker holds the only sender of its report and *)
(* uses it when the coordinator's side of the channel ends; the coordinator stores reports, and a user waits for them.  *)
(* The query may end before all the work is done (LIMIT, failure), and before some tasks or partitions were started.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, P, N, Bug
Tasks == 1..T
Parts == 1..P
VARIABLES query,   \* "run" | "over"
          rows,    \* what each instance has done; -1: not started
          chan,    \* the coordinator's side of each channel: "open" | "eos" | "lost"
          sender,  \* the report's sender: "held" | "used" | "dropped"
          wire,    \* the worker's side: sequence of what is still to be received: "none" | "report" | "end"
          snap,    \* what was reported
          store,   \* what the coordinator knows: "nothing" | "report" | "gone"
          got,     \* number of reports received
          user     \* "idle" | "waits" | "answered"
vars == <<query, rows, chan, sender, wire, snap, store, got, user>>
Init == /\ query = "run" /\ rows = [t \in Tasks |-> [p \in Parts |-> -1]] /\ chan = [t \in Tasks |-> "open"] /\ sender = [t \in Tasks |-> "held"]
        /\ wire = [t \in Tasks |-> <<>>] /\ snap = [t \in Tasks |-> [p \in Parts |-> -1]] /\ store = [t \in Tasks |-> "nothing"] /\ got = [t \in Tasks |-> 0] /\ user = "idle"
Ran(t) == \E p \in Parts : rows[t][p] # -1
Start(t, p) == query = "run" /\ rows[t][p] = -1 /\ rows' = [rows EXCEPT ![t][p] = 0] /\ UNCHANGED <<query, chan, sender, wire, snap, store, got, user>>
Send(t) == sender' = [sender EXCEPT ![t] = "used"] /\ wire' = [wire EXCEPT ![t] = @ \o <<"report">>] /\ snap' = [snap EXCEPT ![t] = rows'[t]]
Work(t, p) == /\ query = "run" /\ rows[t][p] \in 0..N-1 /\ chan[t] # "lost" /\ rows' = [rows EXCEPT ![t][p] = @ + 1]
              /\ IF (Bug = "early" /\ rows'[t][p] = N /\ sender[t] = "held") \/ (Bug = "each" /\ rows'[t][p] = N) THEN Send(t) ELSE UNCHANGED <<sender, wire, snap>>
              /\ UNCHANGED <<query, chan, store, got, user>>
Over == query = "run" /\ query' = "over" /\ UNCHANGED <<rows, chan, sender, wire, snap, store, got, user>>
\* the end of the query reaches the worker (or the connection breaks)
Eos(t) == query = "over" /\ chan[t] = "open" /\ chan' = [chan EXCEPT ![t] = "eos"] /\ UNCHANGED <<query, rows, sender, wire, snap, store, got, user>>
Lost(t) == chan[t] = "open" /\ chan' = [chan EXCEPT ![t] = "lost"] /\ sender' = [sender EXCEPT ![t] = "dropped"] /\ wire' = [wire EXCEPT ![t] = @ \o <<"end">>]
           /\ UNCHANGED <<query, rows, snap, store, got, user>>
\* the worker finishes the task: a report if it ran, then the end of its side
Finish(t) == /\ chan[t] = "eos" /\ wire[t] \in {<<>>, <<"report">>} /\ ~(\E k \in DOMAIN wire[t] : wire[t][k] = "end") /\ sender[t] # "dropped" /\ rows' = rows
             /\ LET w == IF sender[t] = "held" /\ Ran(t) THEN <<"report", "end">> ELSE <<"end">> IN wire' = [wire EXCEPT ![t] = @ \o w]
             /\ snap' = IF sender[t] = "held" /\ Ran(t) THEN [snap EXCEPT ![t] = rows[t]] ELSE snap
             /\ sender' = [sender EXCEPT ![t] = "dropped"] /\ UNCHANGED <<query, chan, store, got, user>>
Receive(t) == /\ wire[t] # <<>> /\ wire' = [wire EXCEPT ![t] = Tail(@)]
              /\ CASE Head(wire[t]) = "report" -> store' = [store EXCEPT ![t] = "report"] /\ got' = [got EXCEPT ![t] = @ + 1]
                   [] OTHER -> store' = [store EXCEPT ![t] = IF @ = "nothing" /\ Bug # "forget" THEN "gone" ELSE @] /\ UNCHANGED got
              /\ UNCHANGED <<query, rows, chan, sender, snap, user>>
Ask == user = "idle" /\ query = "over" /\ user' = "waits" /\ UNCHANGED <<query, rows, chan, sender, wire, snap, store, got>>
Answer == user = "waits" /\ (Bug = "rush" \/ \A t \in Tasks : store[t] # "nothing") /\ user' = "answered" /\ UNCHANGED <<query, rows, chan, sender, wire, snap, store, got>>
Next == Over \/ Ask \/ Answer \/ \E t \in Tasks : Eos(t) \/ Lost(t) \/ Finish(t) \/ Receive(t) \/ \E p \in Parts : Start(t, p) \/ Work(t, p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Over) /\ WF_vars(Ask) /\ WF_vars(Answer) /\ \A t \in Tasks : WF_vars(Eos(t)) /\ WF_vars(Finish(t)) /\ WF_vars(Receive(t))
\* ---- properties
OneReport == \A t \in Tasks : got[t] <= 1
\* a report that was received tells everything the task did (nothing is done after the query is over)
Exact == query = "over" => \A t \in Tasks : store[t] = "report" => snap[t] = rows[t]
Complete == user = "answered" => \A t \in Tasks : Ran(t) /\ chan[t] = "eos" => store[t] = "report"
NotStarted == \A t \in Tasks : store[t] = "report" => Ran(t)
Returns == (user = "waits") ~> (user = "answered")
===============================================================================
