---- MODULE BroadcastMC ----
EXTENDS Broadcast
SC_small == {<<>>, <<"b">>, <<"b", "b">>, <<"b", "err">>, <<"xerr">>, <<"b", "panic">>}
SC_big == {<<>>, <<"b">>, <<"b", "b", "b">>, <<"b", "b", "err">>, <<"err">>, <<"xerr">>, <<"b", "panic">>, <<"b", "b", "b", "b", "b">>}
====
