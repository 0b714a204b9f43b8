------------------------------- MODULE Leaves -------------------------------
(* Tables made of files, dealt to the tasks of a stage. A scan has groups of byte ranges <<file, from, to>>; each task gets
   the same number of groups. Every byte of the scan is dealt exactly once, and the query over the tables gives the answer
   of the whole tables. A row is <<k, id, h>>; ids are unique. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Bytes(rs) == FoldLeft(LAMBDA a, r : a + (r[3] - r[2]), 0, rs)
Full(rs) == SelectSeq(rs, LAMBDA r : r[3] > r[2])
Within(r, rs) == \E i \in 1..Len(rs) : rs[i][1] = r[1] /\ rs[i][2] <= r[2] /\ r[3] <= rs[i][3]
Disjoint(rs) == \A i, j \in 1..Len(rs) : i < j /\ rs[i][1] = rs[j][1] => rs[i][3] <= rs[j][2] \/ rs[j][3] <= rs[i][2]
JScan(s) ==
  LET all == Full(Flat([t \in 1..Len(s.variants) |-> Flat(s.variants[t])]))
      orig == Full(Flat(s.orig))
  IN IF s.bare THEN (IF s.tasks > 1 /\ orig # <<>> THEN "leaf: every task reads the whole scan" ELSE "")
     ELSE IF s.tasks > 0 /\ Len(s.variants) # s.tasks THEN      \* (0: a branch of an isolated union, which has its own number)
          "leaf: not one slice per task"
     ELSE IF \E t, u \in 1..Len(s.variants) : Len(s.variants[t]) # Len(s.variants[u]) THEN "leaf: tasks with different numbers of partitions"
     ELSE IF Len(s.variants[1]) # Len(s.orig) THEN "leaf: splitting changes the number of partitions"
     ELSE IF ~Disjoint(all) THEN "leaf: a part of a file is read twice"
     ELSE IF \E i \in 1..Len(all) : ~Within(all[i], orig) THEN "leaf: a part that does not belong to the scan"
     ELSE IF Bytes(all) # Bytes(orig) THEN "leaf: a part of a file is read by no task"
     ELSE ""
\* answers; q = [shape, t0, t1, big: sets of rows, n: limit]
Sum(S) == FoldSet(LAMBDA r, a : a + r[2], 0, S)
Groups(S, c) == {<<v, Cardinality({r \in S : r[c] = v}), Sum({r \in S : r[c] = v})>> : v \in {r[c] : r \in S}}
Pairs(A, B, c) == {<<p[1][2], p[2][2]>> : p \in {x \in A \X B : x[1][c] = x[2][c]}}
Ids(S) == {<<r[2]>> : r \in S}
Lowest(S, n) == LET s == SetToSortSeq({r[2] : r \in S}, <) IN [i \in 1..(IF Len(s) < n THEN Len(s) ELSE n) |-> <<s[i]>>]
Right(q, rows) ==
  LET set == ToSet(rows)
      one == Cardinality(set) = Len(rows)
      Is(A) == one /\ set = A
  IN CASE q.shape = "all" -> Is(q.t0)
       [] q.shape = "cnt" -> rows = <<<<Cardinality(q.t0)>>>>
       [] q.shape = "grp" -> Is(Groups(q.t0, q.c))
       [] q.shape = "dist" -> Is({<<r[q.c]>> : r \in q.t0})
       [] q.shape = "join" -> Is(Pairs(q.t0, q.t1, q.c))
       [] q.shape = "jbig" -> Is(Pairs(q.t0, q.big, 1))
       [] q.shape = "ord" -> rows = Lowest(q.t0, q.n)
       [] q.shape = "un" -> Is(Ids(q.t0) \cup Ids(q.big))
       [] q.shape = "un2" -> Is(Ids(q.t0) \cup Ids(q.t1))
       [] q.shape = "jgrp" -> Is({<<v, Cardinality({p \in q.t0 \X q.t1 : p[1][q.c] = v /\ p[2][q.c] = v})>> : v \in {p[1][q.c] : p \in {x \in q.t0 \X q.t1 : x[1][q.c] = x[2][q.c]}}})
\* A leaf that a user's handler splits in k slices (the last one with one partition more if uneven), run in tc tasks.
JUser(u) ==
  LET fits == (u.k = u.tc \/ u.tc = 1) /\ ~(u.uneven /\ u.k > 1)
  IN IF u.out = "rows" THEN (IF Len(u.rows) = Len(u.all) /\ ToSet(u.rows) = ToSet(u.all) THEN "" ELSE IF fits THEN "leaf: wrong answer" ELSE "leaf: a split that does not fit is run all the same")
     ELSE IF u.out = "err" THEN (IF fits THEN "leaf: a fitting split is refused" ELSE "")
     ELSE "leaf: a split that does not fit brings the query down"
Users == [k : 1..4, uneven : BOOLEAN, decl : {"d1", "d2", "d3", "d4", "m2", "m3"}, workers : 1..4, how : {"scan", "agg", "grpc"}]
Shapes == {"all", "cnt", "grp", "dist", "join", "jbig", "ord", "un", "un2", "jgrp"}
JScans(ss) == LET bad == SelectSeq([i \in 1..Len(ss) |-> JScan(ss[i])], LAMBDA x : x # "") IN IF bad = <<>> THEN "" ELSE bad[1]
==============================================================================
