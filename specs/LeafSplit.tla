------------------------------ MODULE LeafSplit ------------------------------
(* Dealing the groups of a scan to the tasks of a stage. A group is a sequence of files, a file has a number of bytes; the
   scan of every task has as many groups as the original. How = "groups" (scans with a declared partitioning: group i goes
   to task i % tasks, place i / tasks), "bytes" (all bytes cut in tasks * groups equal ranges, dealt in turns, the missing
   ones being empty), "nopad" (the same without the empty ones), "files" (declared partitionings dealt file by file). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS How, MaxGroups, MaxFiles, MaxBytes, MaxTasks
VARIABLES g, tasks, deal, done
vars == <<g, tasks, deal, done>>
Files == UNION {[1..n -> 0..MaxBytes] : n \in 0..MaxFiles}
N == Len(g)
Slots == N * tasks
\* the bytes of the scan in order: <<group, file, byte>>
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
AllFiles == Flat([i \in 1..N |-> [j \in 1..Len(g[i]) |-> <<i, j>>]])
BytesOf(f) == [b \in 1..g[f[1]][f[2]] |-> <<f[1], f[2], b>>]
All == Flat([i \in 1..Len(AllFiles) |-> BytesOf(AllFiles[i])])
Ceil(a, b) == (a + b - 1) \div b
Size == Ceil(Len(All), Slots)
Ranges == IF All = <<>> THEN [i \in 1..N |-> <<>>]
          ELSE LET m == Ceil(Len(All), Size) IN [i \in 1..m |-> SubSeq(All, (i - 1) * Size + 1, IF i * Size > Len(All) THEN Len(All) ELSE i * Size)]
Pad(s) == [i \in 1..Slots |-> IF i <= Len(s) THEN s[i] ELSE <<>>]
Turns(items, n) == [i \in 1..n |-> Flat([j \in 1..Len(items) |-> IF (j - 1) % n = i - 1 THEN items[j] ELSE <<>>])]
Groups == CASE How = "groups" -> Turns([i \in 1..N |-> Flat([j \in 1..Len(g[i]) |-> BytesOf(<<i, j>>)])], Slots)
            [] How = "files" -> Turns([i \in 1..Len(AllFiles) |-> BytesOf(AllFiles[i])], Slots)
            [] How = "bytes" -> Pad(Ranges)
            [] OTHER -> Ranges
\* the groups of task t: those at t, t + tasks, ...
Dealt == LET gs == TLCEval(Groups) IN [t \in 1..tasks |-> [p \in 1..((Len(gs) - t + tasks) \div tasks) |-> ToSet(gs[t + (p - 1) * tasks])]]
Init == g \in UNION {[1..n -> Files] : n \in 1..MaxGroups} /\ tasks \in 1..MaxTasks /\ deal = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ deal' = Dealt /\ UNCHANGED <<g, tasks>>
Spec == Init /\ [][Next]_vars
Places == UNION {{<<t, p>> : p \in 1..Len(deal[t])} : t \in 1..Len(deal)}
At(x) == deal[x[1]][x[2]]
Total == LET RECURSIVE S(_)
             S(ps) == IF ps = {} THEN 0 ELSE LET x == CHOOSE y \in ps : TRUE IN Cardinality(At(x)) + S(ps \ {x})
         IN S(Places)
Once == done => UNION {At(x) : x \in Places} = ToSet(All) /\ Total = Len(All)
Even == done => \A t \in 1..tasks : Len(deal[t]) = N
Together == done /\ How \in {"groups", "files"} => \A x \in Places : \A a \in At(x) : x = <<((a[1] - 1) % tasks) + 1, ((a[1] - 1) \div tasks) + 1>>
==============================================================================
