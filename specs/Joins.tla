-------------------------------- MODULE Joins --------------------------------
(* What a plan of joins and row limits means, however it is cut into stages: the set of answers it may give. A row is a
   sequence of integers (Null is -1; a mark column is 0 or 1), every row of every input has an identity of its own, so an
   answer is a set of rows. Limits without an order make a plan ambiguous: it may give any one of a set of answers, but a
   limited input is ONE set of rows for everything above it. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Null == -1
LOCAL Lim(n, s, f) == LET m == IF n > s THEN n - s ELSE 0 IN IF f < 0 \/ f > m THEN m ELSE f
RECURSIVE Width(_)
Width(p) == CASE p.op = "leaf" -> 2
              [] p.op = "union" -> Width(p.ins[1])
              [] p.op = "cross" -> Width(p.l) + Width(p.r)
              [] p.op = "join" -> (CASE p.type \in {"Inner", "Left", "Right", "Full"} -> Width(p.l) + Width(p.r)
                                     [] p.type \in {"LeftSemi", "LeftAnti"} -> Width(p.l)
                                     [] p.type \in {"RightSemi", "RightAnti"} -> Width(p.r)
                                     [] p.type = "LeftMark" -> Width(p.l) + 1
                                     [] OTHER -> Width(p.r) + 1)
              [] OTHER -> Width(p.in)
Nulls(n) == [i \in 1..n |-> Null]
\* do two rows match?
Match(p, a, b) == (p.keyed => a[1] # Null /\ a[1] = b[1]) /\ (p.filt => a[2] # Null /\ b[2] # Null /\ (a[2] + b[2]) % 2 = 0)
Join(p, A, B) ==
  LET M == {<<a, b>> \in A \X B : Match(p, a, b)}
      LM == {m[1] : m \in M}
      RM == {m[2] : m \in M}
      In == {m[1] \o m[2] : m \in M}
      LO == {a \o Nulls(Width(p.r)) : a \in A \ LM}
      RO == {Nulls(Width(p.l)) \o b : b \in B \ RM}
  IN CASE p.type = "Inner" -> In
       [] p.type = "Left" -> In \cup LO
       [] p.type = "Right" -> In \cup RO
       [] p.type = "Full" -> In \cup LO \cup RO
       [] p.type = "LeftSemi" -> LM
       [] p.type = "RightSemi" -> RM
       [] p.type = "LeftAnti" -> IF ~p.na THEN A \ LM
                                 ELSE IF B = {} THEN A
                                 ELSE IF \E b \in B : b[1] = Null THEN {} ELSE {a \in A \ LM : a[1] # Null}
       [] p.type = "RightAnti" -> B \ RM
       [] p.type = "LeftMark" -> {Append(a, IF a \in LM THEN 1 ELSE 0) : a \in A}
       [] OTHER -> {Append(b, IF b \in RM THEN 1 ELSE 0) : b \in B}
\* S is what stands between the first p.skip rows of A and the next p.fetch ones, in an order given by column p.col
Window(S, A, p) ==
  LET n == Cardinality(A)
      Rest == A \ S
      lo == {x \in Rest : \E y \in S : x[p.col] < y[p.col]}      \* must come before
      hi == {x \in Rest : \E y \in S : x[p.col] > y[p.col]}      \* must come after
      before == IF p.skip < n THEN p.skip ELSE n
  IN /\ S \subseteq A /\ Cardinality(S) = Lim(n, p.skip, p.fetch)
     /\ S # {} => lo \cap hi = {} /\ Cardinality(lo) <= before /\ Cardinality(Rest \ hi) >= before
Cut(S, A, p) == S \subseteq A /\ Cardinality(S) = Lim(Cardinality(A), p.skip, p.fetch)
RECURSIVE Den(_, _)
Den(d, p) ==
  CASE p.op = "leaf" -> {d[p.i + 1]}
    [] p.op = "union" -> LET RECURSIVE U(_)
                             U(i) == IF i = 0 THEN {{}} ELSE {A \cup B : A \in U(i - 1), B \in Den(d, p.ins[i])}
                         IN U(Len(p.ins))
    [] p.op = "cross" -> {{a \o b : a \in A, b \in B} : A \in Den(d, p.l), B \in Den(d, p.r)}
    [] p.op = "join" -> {Join(p, A, B) : A \in Den(d, p.l), B \in Den(d, p.r)}
    [] p.op = "limit" -> UNION {kSubset(Lim(Cardinality(A), p.skip, p.fetch), A) : A \in Den(d, p.in)}
    [] p.op = "olimit" -> UNION {{S \in kSubset(Lim(Cardinality(A), p.skip, p.fetch), A) : Window(S, A, p)} : A \in Den(d, p.in)}
    [] OTHER -> Den(d, p.in)
Sorted(rows, c) == \A i \in 1..Len(rows) - 1 : rows[i][c] <= rows[i + 1][c]
\* the verdict on an answer: "" if it is one the plan may give
Answer(d, p, rows) ==
  LET S == ToSet(rows)
      n == Len(rows)
  IN IF Cardinality(S) # n THEN "join: a row is emitted twice"
     ELSE IF p.op = "limit" THEN (IF \E A \in Den(d, p.in) : Cut(S, A, p) THEN ""
                                  ELSE IF \A A \in Den(d, p.in) : n > Lim(Cardinality(A), p.skip, p.fetch) THEN "limit: more rows than the limit"
                                  ELSE IF \A A \in Den(d, p.in) : n < Lim(Cardinality(A), p.skip, p.fetch) THEN "limit: fewer rows than available"
                                  ELSE "limit: rows that are not part of the result")
     ELSE IF p.op = "olimit" THEN (IF ~Sorted(rows, p.col) THEN "limit: not in order"
                                   ELSE IF \E A \in Den(d, p.in) : Window(S, A, p) THEN ""
                                   ELSE "limit: not the right rows of the order")
     ELSE IF p.op = "order" /\ ~Sorted(rows, p.col) THEN "join: not in order"
     ELSE LET D == Den(d, p)
          IN IF S \in D THEN ""
             ELSE IF \A A \in D : ~(S \subseteq A) THEN "join: a row that is no row of the answer" ELSE "join: rows are missing"
==============================================================================
