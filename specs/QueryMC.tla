---- MODULE QueryMC ----
EXTENDS QueryImpl
K_two == 0 :> {3} @@ 1 :> {} @@ 2 :> {} @@ 3 :> {1, 2}
K_cross == 0 :> {3, 4} @@ 1 :> {} @@ 2 :> {} @@ 3 :> {1, 2} @@ 4 :> {1, 2}
K_chain == 0 :> {3} @@ 1 :> {} @@ 2 :> {1} @@ 3 :> {2}
====
