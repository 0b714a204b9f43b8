------------------------------ MODULE JoinsSplit ------------------------------
(* Which joins may be cut into tasks, and how: the left side replicated to every task while the right one is dealt out, or
   both sides dealt out by their key. The bag of what the tasks emit has to be the answer of the whole join, whatever the
   deal. Limits: an (ordered) limit of the tasks' limits is the limit of the whole, an offset is not. *)
EXTENDS Joins
CONSTANTS How, JoinTypes, Filt, NA, Tasks, MaxL, MaxR
VARIABLES done, A, B, dl, dr, type
vars == <<done, A, B, dl, dr, type>>
Keys == {Null, 0, 1}
T == 1..Tasks
Sets(base, m) == UNION {{ {<<k[i], base + i>> : i \in 1..n} : k \in [1..n -> Keys]} : n \in 0..m}
P == [op |-> "join", type |-> type, keyed |-> TRUE, filt |-> Filt, na |-> NA, l |-> [op |-> "leaf", i |-> 0], r |-> [op |-> "leaf", i |-> 1]]
Deals(S) == IF How = "broadcast" THEN [S -> T]
            ELSE {f \in [S -> T] : \A x, y \in S : x[1] = y[1] /\ x[1] # Null => f[x] = f[y]}
Init == done = FALSE /\ A \in Sets(10, MaxL) /\ B \in Sets(20, MaxR) /\ dl = <<>> /\ dr = <<>> /\ type = ""
Cut1 == ~done /\ done' = TRUE /\ type' \in JoinTypes /\ UNCHANGED <<A, B>>
        /\ dr' \in Deals(B)
        /\ IF How = "broadcast" THEN dl' = <<>>
           ELSE dl' \in {f \in Deals(A) : \A x \in A, y \in B : x[1] = y[1] /\ x[1] # Null => f[x] = dr'[y]}
Spec == Init /\ [][Cut1]_vars
Here(t) == Join(P, IF How = "broadcast" THEN A ELSE {x \in A : dl[x] = t}, {y \in B : dr[y] = t})
Whole == Join(P, A, B)
RECURSIVE Sum(_)
Sum(t) == IF t = 0 THEN 0 ELSE Cardinality(Here(t)) + Sum(t - 1)
Same == done => UNION {Here(t) : t \in T} = Whole /\ Sum(Tasks) = Cardinality(Whole)
===============================================================================
