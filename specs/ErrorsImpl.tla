------------------------------ MODULE ErrorsImpl ------------------------------
(* The coding of errors at a boundary, as a machine: an error is raised, and at  *)
(* every step handed on by an operator (which may share it), or encoded by one   *)
(* process and decoded by the next.  The message names the kind by a tag of a     *)
(* table and carries the texts and the coded inner errors.  Kinds without a way   *)
(* to build them again ("unbuildable") are decoded as a generic error with a text *)
(* made of their own.  Four designs are refuted: a table with gaps, a context     *)
(* that is flattened into a text, fields that are left out, and a conversion that *)
(* is applied anew at every boundary.                                            *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Hops, Gaps, Flatten, LeaveOut, Again
VARIABLES raised, at, hop, wire
vars == <<raised, at, hop, wire>>

Simple == {"text", "rare", "two", "odd", "generic"}
E(k, s, c) == [k |-> k, s |-> s, c |-> c]
Leaf == {E("text", <<x>>, <<>>) : x \in {"", "a"}} \cup {E("rare", <<"a">>, <<>>), E("odd", <<"a">>, <<>>), E("generic", <<"a">>, <<>>)}
        \cup {E("two", <<x, y>>, <<>>) : x \in {"", "a"}, y \in {"", "+b"}}
Over(S) == {E("context", <<"c">>, <<e>>) : e \in S} \cup {E("shared", <<>>, <<e>>) : e \in S} \cup {E("many", <<>>, <<e, f>>) : e \in S, f \in Leaf}
Errors == Leaf \cup Over(Leaf) \cup Over(Over(Leaf))

RECURSIVE Says(_)
Says(e) == CASE e.k = "shared" -> Says(e.c[1])
             [] e.k = "odd" -> E("generic", <<"odd: " \o e.s[1]>>, <<>>)
             [] OTHER -> E(e.k, e.s, [i \in DOMAIN e.c |-> Says(e.c[i])])

RECURSIVE Text(_)
Text(e) == IF e.c # <<>> THEN Text(e.c[1]) ELSE IF e.s = <<>> THEN "" ELSE e.s[1]
Table == [k \in Simple |-> IF Gaps /\ k = "rare" THEN "other" ELSE k]
RECURSIVE Encode(_)
Encode(e) ==
    CASE e.k \in Simple -> [tag |-> Table[e.k], s |-> IF LeaveOut /\ Len(e.s) > 1 THEN <<e.s[1]>> ELSE e.s, c |-> <<>>]
      [] e.k = "context" /\ Flatten -> [tag |-> "text", s |-> <<e.s[1] \o Text(e.c[1])>>, c |-> <<>>]
      [] OTHER -> [tag |-> e.k, s |-> e.s, c |-> [i \in DOMAIN e.c |-> Encode(e.c[i])]]
RECURSIVE Decode(_)
Decode(m) ==
    CASE m.tag = "odd" -> E("generic", <<"odd: " \o m.s[1]>>, <<>>)
      [] m.tag = "generic" /\ Again -> E("generic", <<"odd: " \o m.s[1]>>, <<>>)
      [] m.tag = "other" -> E("generic", m.s, <<>>)
      [] m.tag = "two" /\ Len(m.s) = 1 -> E("two", <<m.s[1], "">>, <<>>)
      [] OTHER -> E(m.tag, m.s, [i \in DOMAIN m.c |-> Decode(m.c[i])])

None == [tag |-> "none", s |-> <<>>, c |-> <<>>]
Init == raised \in Errors /\ at = raised /\ hop = 0 /\ wire = None
Share == /\ wire = None /\ at.k # "shared"
         /\ at' = E("shared", <<>>, <<at>>)
         /\ UNCHANGED <<raised, hop, wire>>
Send == wire = None /\ hop < Hops /\ wire' = Encode(at) /\ UNCHANGED <<raised, at, hop>>
Receive == wire # None /\ at' = Decode(wire) /\ hop' = hop + 1 /\ wire' = None /\ UNCHANGED raised
Next == Share \/ Send \/ Receive
Spec == Init /\ [][Next]_vars
Faithful == Says(at) = Says(raised)
===============================================================================
