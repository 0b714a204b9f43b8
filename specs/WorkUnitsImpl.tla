--------------------------- MODULE WorkUnitsImpl ---------------------------
(* How the units of the feeds of one task reach its leaves: the coordinator merges the feeds of every leaf into *)
(* chunks of units that are ready, all chunks of a task share one channel, the worker deals them to one queue   *)
(* per leaf and partition, and closes all queues when every feed has ended.                                     *)
(* Feeds: leaf and partition, Endless: those that never end; a feed may fail; the query may end at any time.    *)
(* Race: the end of the query ends the feeds and the channel, whatever the feeds do.                            *)
(* OneQueue: queues are only told apart by partition.                                                           *)
(* Breaks: the channel may break, which the coordinator does not get to know; FailBroken: the worker then fails *)
(* the queues instead of closing them.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Feeds, Endless, Units, ChunkSize, Race, OneQueue, Faults, Breaks, FailBroken
VARIABLES src, fin, pend, chan, sent, queue, closed, got, rd, query, broken
vars == <<src, fin, pend, chan, sent, queue, closed, got, rd, query, broken>>
Leaves == {f[1] : f \in Feeds}
Q(f) == IF OneQueue THEN <<0, f[2]>> ELSE f
Queues == {Q(f) : f \in Feeds}
Init == /\ src = [f \in Feeds |-> 0] /\ fin = [f \in Feeds |-> "no"] /\ pend = [l \in Leaves |-> <<>>]
        /\ chan = <<>> /\ sent = "open" /\ queue = [k \in Queues |-> <<>>] /\ closed = FALSE
        /\ got = [f \in Feeds |-> <<>>] /\ rd = [f \in Feeds |-> "open"] /\ query = "run" /\ broken = FALSE
Live == sent = "open"
\* ---- coordinator ----
Produce(f) == /\ Live /\ fin[f] = "no" /\ src[f] < Units /\ Len(pend[f[1]]) < ChunkSize
              /\ src' = [src EXCEPT ![f] = @ + 1] /\ pend' = [pend EXCEPT ![f[1]] = Append(@, <<f, src[f]>>)]
              /\ UNCHANGED <<fin, chan, sent, queue, closed, got, rd, query, broken>>
EndFeed(f) == /\ Live /\ fin[f] = "no" /\ src[f] = Units /\ f \notin Endless /\ fin' = [fin EXCEPT ![f] = "end"]
              /\ UNCHANGED <<src, pend, chan, sent, queue, closed, got, rd, query, broken>>
FailFeed(f) == /\ Live /\ fin[f] = "no" /\ f \in Faults /\ fin' = [fin EXCEPT ![f] = "err"]
               /\ UNCHANGED <<src, pend, chan, sent, queue, closed, got, rd, query, broken>>
Flush(l) == /\ Live /\ pend[l] # <<>> /\ ~\E f \in Feeds : f[1] = l /\ fin[f] = "err"
            /\ chan' = Append(chan, pend[l]) /\ pend' = [pend EXCEPT ![l] = <<>>]
            /\ UNCHANGED <<src, fin, sent, queue, closed, got, rd, query, broken>>
Errs == \E f \in Feeds : fin[f] = "err"
Eos == /\ Live /\ (Errs \/ ((\A f \in Feeds : fin[f] = "end") /\ \A l \in Leaves : pend[l] = <<>>))
       /\ chan' = Append(chan, <<>>) /\ sent' = "eos"
       /\ UNCHANGED <<src, fin, pend, queue, closed, got, rd, query, broken>>
Stop == /\ Live /\ Race /\ query # "run" /\ chan' = Append(chan, <<>>) /\ sent' = "eos"
        /\ UNCHANGED <<src, fin, pend, queue, closed, got, rd, query, broken>>
Report == /\ query = "run" /\ (Errs \/ \E f \in Feeds : rd[f] = "err") /\ query' = "err" /\ UNCHANGED <<src, fin, pend, chan, sent, queue, closed, got, rd, broken>>
Finish == /\ query = "run" /\ (\A f \in Feeds : rd[f] \in {"end", "stop"}) /\ query' = "ok" /\ UNCHANGED <<src, fin, pend, chan, sent, queue, closed, got, rd, broken>>
Drop == /\ query = "run" /\ query' = "dropped" /\ UNCHANGED <<src, fin, pend, chan, sent, queue, closed, got, rd, broken>>
\* ---- worker ----
Deal == /\ ~broken /\ chan # <<>> /\ chan' = Tail(chan)
        /\ IF Head(chan) = <<>> THEN closed' = TRUE /\ UNCHANGED queue
           ELSE closed' = closed /\ queue' = [k \in Queues |-> queue[k] \o SelectSeq(Head(chan), LAMBDA u : Q(u[1]) = k)]
        /\ UNCHANGED <<src, fin, pend, sent, got, rd, query, broken>>
Break == /\ Breaks /\ ~broken /\ ~closed /\ broken' = TRUE /\ closed' = TRUE /\ UNCHANGED <<src, fin, pend, chan, sent, queue, got, rd, query>>
Read(f) == /\ rd[f] = "open"
           /\ IF queue[Q(f)] # <<>> THEN got' = [got EXCEPT ![f] = Append(@, Head(queue[Q(f)]))] /\ queue' = [queue EXCEPT ![Q(f)] = Tail(@)] /\ UNCHANGED rd
              ELSE closed /\ rd' = [rd EXCEPT ![f] = IF broken /\ FailBroken THEN "err" ELSE "end"] /\ UNCHANGED <<got, queue>>
           /\ UNCHANGED <<src, fin, pend, chan, sent, closed, query, broken>>
\* a reader that has enough (or whose consumer has)
Enough(f) == /\ rd[f] = "open" /\ (f \in Endless => Len(got[f]) = Units) /\ rd' = [rd EXCEPT ![f] = "stop"]
             /\ UNCHANGED <<src, fin, pend, chan, sent, queue, closed, got, query, broken>>
Next == \/ \E f \in Feeds : Produce(f) \/ EndFeed(f) \/ FailFeed(f) \/ Read(f) \/ Enough(f)
        \/ \E l \in Leaves : Flush(l)
        \/ Eos \/ Stop \/ Report \/ Finish \/ Drop \/ Deal \/ Break
Fair == /\ \A f \in Feeds : WF_vars(Produce(f)) /\ WF_vars(EndFeed(f)) /\ WF_vars(Read(f)) /\ (f \in Endless => WF_vars(Enough(f)))
        /\ \A l \in Leaves : WF_vars(Flush(l))
        /\ WF_vars(Eos) /\ WF_vars(Stop) /\ WF_vars(Report) /\ WF_vars(Finish) /\ WF_vars(Deal)
Spec == Init /\ [][Next]_vars /\ Fair
\* what a leaf receives: a prefix of its own feed
Own == \A f \in Feeds : \A i \in DOMAIN got[f] : got[f][i] = <<f, i - 1>>
\* the end of the units is the end of the feed, unless something failed or the query is over
Whole == \A f \in Feeds : rd[f] = "end" => Len(got[f]) = Units \/ Errs \/ query # "run"
Right == query = "ok" => \A f \in Feeds : rd[f] = "end" => Len(got[f]) = Units \/ Errs
Ends == <>(query # "run")
Closes == <>(sent = "eos" /\ closed)
\* no unit waits for another feed
Prompt == \A f \in Feeds : (src[f] = Units) ~> (Len(got[f]) = Units \/ rd[f] # "open" \/ Errs \/ broken \/ query # "run")
=============================================================================
