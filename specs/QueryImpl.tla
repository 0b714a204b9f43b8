----------------------------- MODULE QueryImpl -----------------------------
(* One query on the workers, at the grain of its messages: tasks are set up over a coordinator stream each,   *)
(* consumers ask tasks for their output, failures of every kind happen anywhere, the client may give up.      *)
(* Kids[c]: the tasks consumer c reads (0: the client's side).  Every edge carries one item, then its end.    *)
(* Watch: a failed set-up reaches the client at once instead of when the query ends by itself.                *)
(* PanicIsErr: a panic is an error like any other (otherwise: the set-up's stream is reset and its entry is   *)
(* never written; a request is reset; a running partition just ends).                                         *)
(* Cancel: the end of the query ends every coordinator stream.                                                *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Tasks, Kids, MaxFaults, Watch, PanicIsErr, Cancel
VARIABLES fault, client, cause, c2w, entry, edge, item, ecause, fired
vars == <<fault, client, cause, c2w, entry, edge, item, ecause, fired>>
Kinds == {"none", "connect", "setup", "setpanic", "encode", "exec", "execpanic", "run", "runpanic", "cut"}
Edges == UNION {{<<c, t>> : t \in Kids[c]} : c \in DOMAIN Kids}
Over == client \in {"ok", "err", "dropped"}
Init == /\ fault \in {f \in [Tasks -> Kinds] : Cardinality({t \in Tasks : f[t] # "none"}) <= MaxFaults}
        /\ client = "run" /\ cause = <<0, "">> /\ fired = {}
        /\ c2w = [t \in Tasks |-> "no"] /\ entry = [t \in Tasks |-> "none"]
        /\ edge = [e \in Edges |-> "no"] /\ item = [e \in Edges |-> FALSE] /\ ecause = [e \in Edges |-> <<0, "">>]
Why(t) == <<t, fault[t]>>
Fired(t) == fired' = fired \cup {Why(t)}
Fails(e, why) == edge' = [edge EXCEPT ![e] = "err"] /\ ecause' = [ecause EXCEPT ![e] = why]

(* ---- set-up ---- *)
Send(t) == /\ c2w[t] = "no" /\ ~Over
           /\ IF fault[t] \in {"connect", "encode"} THEN c2w' = [c2w EXCEPT ![t] = "err"] /\ Fired(t) ELSE c2w' = [c2w EXCEPT ![t] = "sent"] /\ UNCHANGED fired
           /\ UNCHANGED <<fault, client, cause, entry, edge, item, ecause>>
Arrive(t) == /\ c2w[t] = "sent"
             /\ CASE fault[t] = "setup" \/ (fault[t] = "setpanic" /\ PanicIsErr) -> entry' = [entry EXCEPT ![t] = "failed"] /\ c2w' = [c2w EXCEPT ![t] = "err"] /\ Fired(t)
                  [] fault[t] = "setpanic" -> c2w' = [c2w EXCEPT ![t] = "reset"] /\ Fired(t) /\ UNCHANGED entry
                  [] OTHER -> entry' = [entry EXCEPT ![t] = "ready"] /\ c2w' = [c2w EXCEPT ![t] = "open"] /\ UNCHANGED fired
             /\ UNCHANGED <<fault, client, cause, edge, item, ecause>>
Report(t) == /\ Watch /\ c2w[t] \in {"err", "reset"} /\ client = "run"
             /\ client' = "err" /\ cause' = (IF c2w[t] = "err" THEN Why(t) ELSE <<0, "reset">>)
             /\ UNCHANGED <<fault, c2w, entry, edge, item, ecause, fired>>
Cut(t) == /\ fault[t] = "cut" /\ Why(t) \notin fired /\ Fired(t)
          /\ c2w' = [c2w EXCEPT ![t] = IF @ \in {"sent", "open"} THEN "err" ELSE @]
          /\ entry' = [entry EXCEPT ![t] = IF @ = "ready" THEN "gone" ELSE @]
          /\ edge' = [e \in Edges |-> IF e[2] = t /\ edge[e] \in {"wait", "open"} THEN "err" ELSE edge[e]]
          /\ ecause' = [e \in Edges |-> IF e[2] = t /\ edge[e] \in {"wait", "open"} THEN Why(t) ELSE ecause[e]]
          /\ UNCHANGED <<fault, client, cause, item>>

(* ---- consumers ---- *)
Wanted(c) == IF c = 0 THEN client = "run" ELSE \E e \in Edges : e[2] = c /\ edge[e] = "open"
Ask(e) == /\ edge[e] = "no" /\ Wanted(e[1])
          /\ IF fault[e[2]] = "connect" \/ (fault[e[2]] = "cut" /\ Why(e[2]) \in fired)
             THEN Fails(e, Why(e[2])) /\ Fired(e[2]) ELSE edge' = [edge EXCEPT ![e] = "wait"] /\ UNCHANGED <<ecause, fired>>
          /\ UNCHANGED <<fault, client, cause, c2w, entry, item>>
Serve(e) == LET t == e[2] IN
  /\ edge[e] = "wait"
  /\ CASE entry[t] = "failed" -> Fails(e, Why(t)) /\ UNCHANGED fired
       [] entry[t] = "ready" /\ (fault[t] = "exec" \/ (fault[t] = "execpanic" /\ PanicIsErr)) -> Fails(e, Why(t)) /\ Fired(t)
       [] entry[t] = "ready" /\ fault[t] = "execpanic" -> Fails(e, <<0, "reset">>) /\ Fired(t)
       [] entry[t] = "ready" -> edge' = [edge EXCEPT ![e] = "open"] /\ UNCHANGED <<ecause, fired>>
       \* nothing will come any more: the request waits for its time limit
       [] OTHER -> entry[t] = "none" /\ c2w[t] \in {"err", "reset"} /\ (~Watch \/ Over) /\ Fails(e, <<0, "timeout">>) /\ UNCHANGED fired
  /\ UNCHANGED <<fault, client, cause, c2w, entry, item>>
Ins(t) == {e \in Edges : e[1] = t}
Run(e) == LET t == e[2] bad == {i \in Ins(t) : edge[i] = "err"} IN
  /\ edge[e] = "open"
  /\ CASE fault[t] = "run" \/ (fault[t] = "runpanic" /\ PanicIsErr) -> Fails(e, Why(t)) /\ Fired(t) /\ UNCHANGED item
       [] fault[t] = "runpanic" -> edge' = [edge EXCEPT ![e] = "end"] /\ Fired(t) /\ UNCHANGED <<ecause, item>>
       [] bad # {} -> (\E i \in bad : Fails(e, ecause[i])) /\ UNCHANGED <<item, fired>>
       [] \A i \in Ins(t) : edge[i] = "end" -> item' = [item EXCEPT ![e] = TRUE] /\ edge' = [edge EXCEPT ![e] = "end"] /\ UNCHANGED <<ecause, fired>>
       [] OTHER -> FALSE
  /\ UNCHANGED <<fault, client, cause, c2w, entry>>
\* nobody reads the output of the task any more: it stops reading its own inputs
Idle(c) == IF c = 0 THEN Over ELSE \A e \in Edges : e[2] = c => edge[e] \in {"end", "err", "gone"}
Release(e) == /\ edge[e] \in {"no", "wait", "open"} /\ Idle(e[1]) /\ edge' = [edge EXCEPT ![e] = "gone"]
              /\ UNCHANGED <<fault, client, cause, c2w, entry, item, ecause, fired>>

(* ---- the client ---- *)
Finish == /\ client = "run"
          /\ LET bad == {e \in Ins(0) : edge[e] = "err"} IN
             \/ bad # {} /\ client' = "err" /\ \E e \in bad : cause' = ecause[e]
             \/ bad = {} /\ (\A e \in Ins(0) : edge[e] = "end")
                \* what failed in the background is reported before a successful end
                /\ LET b == {t \in Tasks : c2w[t] \in {"err", "reset"}} IN
                   IF b = {} THEN client' = "ok" /\ UNCHANGED cause ELSE client' = "err" /\ \E t \in b : cause' = IF c2w[t] = "err" THEN Why(t) ELSE <<0, "reset">>
          /\ UNCHANGED <<fault, c2w, entry, edge, item, ecause, fired>>
Drop == client = "run" /\ client' = "dropped" /\ UNCHANGED <<fault, cause, c2w, entry, edge, item, ecause, fired>>
\* the coordinator streams end with the query, and the worker forgets the task
Hangup(t) == /\ Cancel /\ Over /\ c2w[t] \in {"sent", "open"} /\ c2w' = [c2w EXCEPT ![t] = "closed"]
             /\ entry' = [entry EXCEPT ![t] = IF @ = "ready" THEN "gone" ELSE @]
             /\ UNCHANGED <<fault, client, cause, edge, item, ecause, fired>>

Step == Finish \/ (\E t \in Tasks : Send(t) \/ Arrive(t) \/ Report(t) \/ Hangup(t)) \/ (\E e \in Edges : Ask(e) \/ Serve(e) \/ Run(e) \/ Release(e))
Next == Step \/ Drop \/ \E t \in Tasks : Cut(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish)
        /\ \A t \in Tasks : WF_vars(Send(t)) /\ WF_vars(Arrive(t)) /\ WF_vars(Report(t)) /\ WF_vars(Hangup(t))
        /\ \A e \in Edges : WF_vars(Ask(e)) /\ WF_vars(Serve(e)) /\ WF_vars(Run(e)) /\ WF_vars(Release(e))

Whole == client = "ok" => \A e \in Edges : item[e]
Explained == client = "err" => cause \in fired
Ends == <>Over
Released == Over ~> [](\A t \in Tasks : entry[t] # "ready" /\ c2w[t] \notin {"sent", "open"})
Stopped == Over ~> [](\A e \in Edges : edge[e] \notin {"wait", "open"})
=============================================================================
