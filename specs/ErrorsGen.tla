------------------------------ MODULE ErrorsGen -------------------------------
(* The shapes of errors up to a depth: every kind, alone and under every stack of *)
(* wrappers.  A collection gets a second error of some other kind.               *)
EXTENDS Errors, Json, TLC
CONSTANT Depth
VARIABLES shape, depth
Others == {<<"Plan">>, <<"Store.NotFound">>, <<"Context", <<"Io.TimedOut">>>>}
Init == depth = 0 /\ shape \in {<<k>> : k \in Leaves}
Wrap(w) == /\ depth < Depth
           /\ depth' = depth + 1
           /\ IF w = "Collection" THEN \E o \in Others : shape' \in {<<w, shape, o>>, <<w, o, shape>>} ELSE shape' = <<w, shape>>
Next == \E w \in Wrappers : Wrap(w)
Spec == Init /\ [][Next]_<<shape, depth>>
Emit == PrintT("CASE " \o ToJson(shape))
===============================================================================
