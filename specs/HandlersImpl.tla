----------------------------- MODULE HandlersImpl -----------------------------
(* The dispatch as it is implemented, one call at a time: custom handlers, then built-in ones; the default      *)
(* routing starts at a random worker and goes round. Shown to be what Handlers asks for; with a bug, not to be. *)
EXTENDS Handlers, SequencesExt
CONSTANTS Workers, MaxTasks, MaxUsers, Bug
Answers == {"none", "mine", "err"}
VARIABLES users, tasks, local, pos, calls, out, place, start
vars == <<users, tasks, local, pos, calls, out, place, start>>
W == 0..(Workers - 1)
Init == /\ \E n \in 0..MaxUsers : users \in [1..n -> Answers]
        /\ tasks \in 1..MaxTasks /\ local \in {-1, 0} /\ start \in W
        /\ pos = (IF Bug = "reverse" THEN Len(users) ELSE 1) /\ calls = <<>> /\ out = -1 /\ place = [t \in {} |-> 0]
Inside == pos >= 1 /\ pos <= Len(users)
Call == out = -1 /\ Inside /\ calls' = Append(calls, pos)
        /\ (IF users[pos] = "none" \/ (Bug = "last" /\ pos < Len(users)) THEN pos' = (IF Bug = "reverse" THEN pos - 1 ELSE pos + 1) /\ out' = out ELSE out' = pos /\ pos' = pos)
        /\ UNCHANGED <<users, tasks, local, place, start>>
Fall == out = -1 /\ ~Inside /\ out' = 0 /\ UNCHANGED <<users, tasks, local, pos, calls, place, start>>
T == 0..(tasks - 1)
Place == out >= 0 /\ DOMAIN place = {} /\ out' = out /\
  (IF out > 0 THEN IF users[out] = "err" THEN place' = [t \in {} |-> 0] ELSE place' = [t \in T |-> (t * 2) % Workers]
   ELSE IF tasks = 1 /\ local >= 0 THEN place' = [t \in T |-> local]
   ELSE IF Bug = "random" THEN \E f \in [T -> W] : place' = f
   ELSE place' = [t \in T |-> (start + (IF Bug = "stride" THEN 2 * t ELSE t)) % Workers])
  /\ UNCHANGED <<users, tasks, local, pos, calls, start>>
Next == Call \/ Fall \/ Place
Spec == Init /\ [][Next]_vars
Right == /\ calls = [j \in 1..Len(calls) |-> j] /\ Len(calls) <= Shown(users)
         /\ out >= 0 => out = First(users) /\ Len(calls) = Shown(users)
         /\ out = 0 /\ DOMAIN place # {} => Default(place, W, local, {})
         /\ out > 0 /\ DOMAIN place # {} => users[out] = "mine" /\ place = [t \in T |-> (t * 2) % Workers]
===============================================================================
