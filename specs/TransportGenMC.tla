---- MODULE TransportGenMC ----
EXTENDS Transport
SC_small == {<<>>, <<"b">>, <<"b", "b">>, <<"w", "b">>, <<"b", "w", "b">>, <<"b", "err">>, <<"b", "panic">>, <<"xerr">>}
SC_gate == {<<"b", "b", "b">>, <<"b", "w", "b", "w">>, <<"w", "b", "b">>, <<"b", "w", "err">>}
SC_big == {<<>>, <<"B">>, <<"B", "B", "B", "B", "B", "B">>, <<"b", "B", "w", "B", "B", "w", "b">>, <<"b", "b", "b", "b", "b", "b", "b", "b">>,
           <<"B", "B", "B", "B", "B", "B", "B", "B", "B", "B", "B", "B">>, <<"w", "B", "B", "w", "B", "B">>}
SC_fail == SC_big \cup {<<"err">>, <<"B", "b", "err">>, <<"b", "w", "B", "err">>, <<"b", "w", "B", "panic">>, <<"panic">>, <<"xerr">>}
SC_long == {[i \in 1..150 |-> "B"]}
BU_hold == {1, 200000, 1000000}
BU_one == {1}
BU_all == {1, 70000, 300000, 67108864}
====
