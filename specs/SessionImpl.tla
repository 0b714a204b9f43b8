------------------------------ MODULE SessionImpl ------------------------------
(* How settings travel: as headers, named P.prefix.key in lower case; with a value that a header cannot hold   *)
(* a query is refused. The receiver takes what bears its prefix and is one of its keys, byte by byte. Shown    *)
(* to give every task at every hop the snapshot of its query (Same), and with each repair left out, not to.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Chars, MaxKey, Bug
P == <<"p">>                                    \* the reserved prefix
Pfx == {<<"r">>, <<"M">>}                       \* the prefix of the extension
RECURSIVE Str(_)
Str(n) == IF n = 0 THEN {<<>>} ELSE Str(n - 1) \cup {Append(s, ch) : s \in Str(n - 1), ch \in Chars}
Names == Str(MaxKey) \ {<<>>}
Low(ch) == IF ch = "M" THEN "m" ELSE ch
Lower(s) == [j \in DOMAIN s |-> Low(s[j])]
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Strip(s, p) == SubSeq(s, Len(p) + 1, Len(s))
RECURSIVE TrimAll(_, _)
TrimAll(s, p) == IF Starts(s, p) /\ p # <<>> THEN TrimAll(Strip(s, p), p) ELSE s
Vals == {"plain", "other", "wide", "odd"}       \* "odd": no header can hold it; "wide": more than ASCII
VARIABLES pfx, sess, snap, views, phase
vars == <<pfx, sess, snap, views, phase>>
Default == "default"
(* a session: the values of two keys, and one pass-through header *)
Init == /\ pfx \in Pfx /\ views = <<>> /\ phase = "idle" /\ snap = <<>>
        /\ \E a, b \in Names, v \in Vals, h \in Str(MaxKey + 2) \ {<<>>} : Lower(a) # Lower(b) /\ ~Starts(h, P) /\ h = Lower(h)
             /\ sess = [opt |-> (a :> v) @@ (b :> Default), hdr |-> h]
(* "skip": what no header can hold is left out *)
Encode(opt) == {[n |-> P \o Lower(pfx) \o <<".">> \o Lower(k), v |-> opt[k]] : k \in {x \in DOMAIN opt : Bug # "skip" \/ opt[x] # "odd"}}
Headers(s) == Encode(s.opt) \cup {[n |-> s.hdr, v |-> "mine"]}
Legal(hs) == \A h \in hs : h.v # "odd" /\ (Bug = "ascii" => h.v # "wide")
Want(n, known) ==   \* which key a header is for, or <<>>
  LET mine == Lower(pfx) \o <<".">>
      n1 == IF Bug = "noprefix" THEN TrimAll(n, P) ELSE IF Starts(n, P) THEN Strip(n, P) ELSE <<>>
      lead == IF Bug = "case" THEN pfx \o <<".">> ELSE mine
      key == IF Starts(n1, lead) THEN (IF Bug = "trim" THEN TrimAll(n1, lead) ELSE Strip(n1, lead)) ELSE <<>>
      fit == {k \in known : (IF Bug = "case" THEN k ELSE Lower(k)) = key} IN
  IF fit = {} THEN <<>> ELSE CHOOSE k \in fit : TRUE
Decode(hs, known) == [k \in known |-> LET fit == {h \in hs : Want(h.n, known) = k} IN IF fit = {} THEN Default ELSE (CHOOSE h \in fit : Cardinality(fit) = 1 \/ h.v = "mine").v]
Issue == phase = "idle" /\ phase' = (IF Legal(Headers(sess)) THEN "sent" ELSE "refused") /\ snap' = sess /\ UNCHANGED <<pfx, sess, views>>
Change == phase = "sent" /\ \E k \in DOMAIN sess.opt : sess.opt[k] # "other" /\ sess' = [sess EXCEPT !.opt[k] = "other"] /\ UNCHANGED <<pfx, snap, views, phase>>
Deliver == phase = "sent" /\ Len(views) < 2 /\
  LET src == IF views # <<>> THEN [opt |-> views[1], hdr |-> snap.hdr] ELSE IF Bug = "live" THEN sess ELSE snap
      hs == Headers(src) IN
  views' = Append(views, Decode(hs, DOMAIN src.opt)) /\ UNCHANGED <<pfx, sess, snap, phase>>
Next == Issue \/ Change \/ Deliver
Spec == Init /\ [][Next]_vars
Same == /\ \A j \in DOMAIN views : views[j] = snap.opt
        /\ phase = "refused" => \E k \in DOMAIN snap.opt : snap.opt[k] = "odd"
===============================================================================
