------------------------------- MODULE UnionSplit -------------------------------
(* How a union deals the tasks of its stage to its branches (the algorithm of ChildrenIsolatorUnionExec), and *)
(* what is expected of the result: Good. Weights are what the branches declared, cap 0: no maximum.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS MaxBranches, MaxWeight, MaxTasks, FloorFirst
VARIABLES br, n, res, pc
vars == <<br, n, res, pc>>
B == DOMAIN br
Total == FoldLeft(LAMBDA a, b : a + b.w, 0, br)
Floor(i) == IF Total > 0 THEN (n * br[i].w) \div Total ELSE n \div Len(br)
Rest(i) == IF Total > 0 THEN (n * br[i].w) % Total ELSE n % Len(br)
Clamp(i, k) == IF br[i].cap > 0 /\ k > br[i].cap THEN br[i].cap ELSE k
\* the order in which the remaining tasks are offered
Before(i, j) == Rest(i) > Rest(j) \/ (Rest(i) = Rest(j) /\ i < j)
Order == SetToSortSeq(B, Before)
Open(a, i) == br[i].cap = 0 \/ a[i] < br[i].cap
Sum(a) == FoldLeft(LAMBDA s, i : s + a[i], 0, [i \in B |-> i])
RECURSIVE Offer(_)
Offer(a) == LET r == FoldLeft(LAMBDA x, i : IF Sum(x) < n /\ Open(x, i) THEN [x EXCEPT ![i] = @ + 1] ELSE x, a, Order)
            IN IF r = a THEN a ELSE Offer(r)
Alloc == Offer([i \in B |-> Clamp(i, IF FloorFirst THEN Floor(i) ELSE Floor(i) + 1)])
Starts(a) == [i \in B |-> FoldLeft(LAMBDA s, j : IF j < i THEN s + a[j] ELSE s, 0, [j \in B |-> j])]
Nil(a, i) == Cardinality({j \in B : j < i /\ a[j] = 0})
\* slices of branch i that task t (from 0) runs: <<branch, slice, of>>
Deal(a, t) == {<<i, t - Starts(a)[i], a[i]>> : i \in {j \in B : Starts(a)[j] <= t /\ t < Starts(a)[j] + a[j]}}
              \cup {<<i, 0, 1>> : i \in {j \in B : a[j] = 0 /\ Sum(a) > 0 /\ Nil(a, j) % Sum(a) = t}}
Good(r) ==
  /\ DOMAIN r = 0..(n - 1)
  /\ \A i \in B : LET sl == {<<t, x>> \in (0..(n - 1)) \X (UNION {r[u] : u \in 0..(n - 1)}) : x \in r[t] /\ x[1] = i}
                      k == Cardinality(sl) IN
       /\ k >= 1 /\ (br[i].cap > 0 => k <= br[i].cap)
       /\ {s[2] : s \in sl} = {<<i, j, k>> : j \in 0..(k - 1)}
\* as long as no maximum forbids it, all tasks have work
Busy(r) == (\A i \in B : br[i].cap = 0) => \A t \in DOMAIN r : r[t] # {}
Init == /\ \E m \in 1..MaxBranches : br \in [1..m -> {[w |-> x, cap |-> c] : x \in 0..MaxWeight, c \in {0}} \cup {[w |-> x, cap |-> x] : x \in 1..MaxWeight}]
        /\ n \in 1..MaxTasks /\ res = <<>> /\ pc = 0
Next == pc = 0 /\ pc' = 1 /\ res' = [t \in 0..(n - 1) |-> Deal(Alloc, t)] /\ UNCHANGED <<br, n>>
Spec == Init /\ [][Next]_vars
Right == pc = 1 => Good(res) /\ Busy(res)
=================================================================================
