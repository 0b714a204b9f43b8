---------------------------- MODULE ExchangeImpl ----------------------------
(* The exchange as it is implemented: index arithmetic of the three network operators, producer heads, *)
(* one lazily made request per (consumer task, producer task). Every event it can produce must be one  *)
(* that Exchange allows, and when everything was read nothing is missing.                              *)
EXTENDS Exchange
CONSTANTS MaxT, MaxP, MaxC, MaxN
VARIABLES m, hash, s, last
vars == <<m, hash, s, last>>

MinOf(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Id(t, p) == 1 + t * m.P + p
Key(id) == id % 2

Init == /\ m \in {[kind |-> k, T |-> t, P |-> p, C |-> c, N |-> IF k = "gather" THEN CeilDiv(t, c) * p ELSE IF k = "bcast" THEN p ELSE n, loc |-> <<>>, home |-> <<>>]
                   : k \in {"shuffle", "gather", "bcast"}, t \in 1..MaxT, p \in 1..MaxP, c \in 1..MaxC, n \in 1..MaxN}
        /\ ~Elided(m)
        /\ hash \in [{0, 1} -> 0..(m.N * m.C - 1)]
        /\ m.kind # "shuffle" => \A k \in {0, 1} : hash[k] = 0
        /\ s = Fresh /\ last = ""

(* task_group *)
GroupLen(c) == (m.T \div m.C) + (IF c < m.T % m.C THEN 1 ELSE 0)
GroupStart(c) == c * (m.T \div m.C) + MinOf(c, m.T % m.C)
PerTask == m.N \div CeilDiv(m.T, m.C)

(* producer tasks whose stream feeds partition p of consumer task c *)
Feeds(c, p) == IF m.kind # "gather" THEN Tasks(m) ELSE IF p \div PerTask < GroupLen(c) THEN {GroupStart(c) + p \div PerTask} ELSE {}
(* virtual producer partition read by partition p of consumer task c *)
Virtual(c, p) == IF m.kind = "gather" THEN p % PerTask ELSE m.N * c + p
(* virtual partitions to which the head of a producer task sends the rows of partition p *)
Heads(t, p) == CASE m.kind = "shuffle" -> {hash[Key(Id(t, p))]}
                 [] m.kind = "bcast" -> {p + m.P * k : k \in 0..(m.C - 1)}
                 [] OTHER -> {p}

Do(e) == last' = Judge(m, s, e) /\ s' = After(m, s, e) /\ UNCHANGED <<m, hash>>

Plan == Cardinality(s.planned) < m.T /\ Do([k |-> "plan", t |-> Cardinality(s.planned)])
Open(c, p) == Cardinality(s.planned) = m.T /\ <<c, p>> \notin s.open /\ Do([k |-> "open", c |-> c, p |-> p])
Req(c, t) == /\ <<c, t>> \notin s.reqs
             /\ \E p \in 0..(m.N - 1) : <<c, p>> \in s.open /\ t \in Feeds(c, p)
             /\ Do([k |-> "req", c |-> c, t |-> t, head |-> HeadOf(m), n |-> Offered(m),
                    p0 |-> IF m.kind = "gather" THEN 0 ELSE m.N * c, p1 |-> IF m.kind = "gather" THEN PerTask ELSE m.N * (c + 1)])
Run(t, p) == /\ <<t, p>> \notin s.run /\ \E r \in s.reqs : r[2] = t
             /\ Do([k |-> "run", t |-> t, p |-> p])
Emit(t, p) == <<t, p>> \in s.run \ s.ended /\ Id(t, p) \notin DOMAIN s.own /\ Do([k |-> "emit", t |-> t, p |-> p, row |-> <<Key(Id(t, p)), Id(t, p)>>])
Eop(t, p) == <<t, p>> \in s.run \ s.ended /\ Id(t, p) \in DOMAIN s.own /\ Do([k |-> "eop", t |-> t, p |-> p])
Recv(c, p, id) == LET o == s.own[id].tp IN
                  /\ <<c, p>> \in s.open /\ o[1] \in Feeds(c, p) /\ <<c, o[1]>> \in s.reqs
                  /\ Virtual(c, p) \in Heads(o[1], o[2])
                  /\ (IF m.kind = "bcast" THEN <<c, id>> ELSE <<0, id>>) \notin s.got
                  /\ Do([k |-> "recv", c |-> c, p |-> p, row |-> <<Key(id), id>>])
Eoc(c, p) == /\ <<c, p>> \in s.open \ s.closed
             /\ \A t \in Feeds(c, p) : \A q \in Parts(m) :
                  /\ <<t, q>> \in s.ended \/ (m.kind # "shuffle" /\ Virtual(c, p) \notin Heads(t, q))
                  /\ Virtual(c, p) \in Heads(t, q) => (IF m.kind = "bcast" THEN <<c, Id(t, q)>> ELSE <<0, Id(t, q)>>) \in s.got
             /\ Do([k |-> "eoc", c |-> c, p |-> p])

Next == \/ Plan
        \/ \E c \in 0..(m.C - 1) : (\E p \in 0..(m.N - 1) : Open(c, p) \/ Eoc(c, p) \/ (\E id \in DOMAIN s.own : Recv(c, p, id))) \/ (\E t \in Tasks(m) : Req(c, t))
        \/ \E t \in Tasks(m), p \in Parts(m) : Run(t, p) \/ Emit(t, p) \/ Eop(t, p)
Spec == Init /\ [][Next]_vars

Allowed == last = ""
(* whatever is not finished can go on; whatever is finished is complete *)
Finished == (~ENABLED Next) => Missing(m, s) = ""
=============================================================================
