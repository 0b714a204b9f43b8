--------------------------- MODULE BroadcastImpl ---------------------------
(* The shared queue below the operator, at the grain of its atomic steps: the *)
(* producer appends an entry and only then announces the new length; a reader *)
(* works on a private copy of the announced state that may be stale.  Checked *)
(* against the abstract promise: no reader sleeps while it has something to   *)
(* read, sees a gap, or ends early.                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, R     \* entries, readers
VARIABLES entries, note, pc, seen, idx, stale, asleep, out
vars == <<entries, note, pc, seen, idx, stale, asleep, out>>
Rs == 1..R
Init == /\ entries = 0 /\ note = [len |-> 0, closed |-> FALSE] /\ pc = "push"
        /\ idx = [r \in Rs |-> 0] /\ seen = [r \in Rs |-> [len |-> 0, closed |-> FALSE]]
        /\ stale = [r \in Rs |-> TRUE]      \* a fresh subscription reports the current value once
        /\ asleep = [r \in Rs |-> FALSE] /\ out = [r \in Rs |-> <<>>]
Push == pc = "push" /\ entries < K /\ entries' = entries + 1 /\ pc' = "announce" /\ UNCHANGED <<note, seen, idx, stale, asleep, out>>
Announce == /\ pc = "announce" /\ note' = [note EXCEPT !.len = entries] /\ pc' = "push"
            /\ stale' = [r \in Rs |-> TRUE] /\ asleep' = [r \in Rs |-> FALSE] /\ UNCHANGED <<entries, seen, idx, out>>
Close == /\ pc = "push" /\ note' = [note EXCEPT !.closed = TRUE] /\ pc' = "gone"
         /\ stale' = [r \in Rs |-> TRUE] /\ asleep' = [r \in Rs |-> FALSE] /\ UNCHANGED <<entries, seen, idx, out>>
Done(r) == out[r] # <<>> /\ out[r][Len(out[r])] = "end"
Take(r) == /\ ~asleep[r] /\ ~Done(r) /\ idx[r] < seen[r].len /\ idx[r] < entries
           /\ idx' = [idx EXCEPT ![r] = @ + 1] /\ out' = [out EXCEPT ![r] = Append(@, ToString(idx[r] + 1))]
           /\ UNCHANGED <<entries, note, pc, seen, stale, asleep>>
End(r) == /\ ~asleep[r] /\ ~Done(r) /\ idx[r] >= seen[r].len /\ seen[r].closed
          /\ out' = [out EXCEPT ![r] = Append(@, "end")] /\ UNCHANGED <<entries, note, pc, seen, idx, stale, asleep>>
Look(r) == /\ ~asleep[r] /\ ~Done(r) /\ idx[r] >= seen[r].len /\ ~seen[r].closed
           /\ IF stale[r] THEN seen' = [seen EXCEPT ![r] = note] /\ stale' = [stale EXCEPT ![r] = FALSE] /\ UNCHANGED asleep
              ELSE asleep' = [asleep EXCEPT ![r] = TRUE] /\ UNCHANGED <<seen, stale>>
           /\ UNCHANGED <<entries, note, pc, idx, out>>
Next == Push \/ Announce \/ Close \/ \E r \in Rs: Take(r) \/ End(r) \/ Look(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Push) /\ WF_vars(Announce) /\ WF_vars(Close) /\ \A r \in Rs: WF_vars(Take(r) \/ End(r) \/ Look(r))
Prefix == \A r \in Rs: \A k \in 1..Len(out[r]): out[r][k] = "end" \/ out[r][k] = ToString(k)
NoEarlyEnd == \A r \in Rs: Done(r) => pc = "gone" /\ Len(out[r]) = entries + 1
NoLostWakeup == \A r \in Rs: asleep[r] => idx[r] = note.len /\ ~note.closed
AllEnd == \A r \in Rs: <>Done(r)
=============================================================================
