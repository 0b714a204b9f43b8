---- MODULE TransportMC ----
EXTENDS TransportImpl
W_two == {<<1, 1, 2>>, <<2, 1, 2, 1>>, <<1, 1, 1, 2>>, <<2, 2, 2>>, <<>>}
W_three == {<<1, 2, 3>>, <<3, 3, 2, 1>>, <<1, 1, 2, 2, 3>>}
====
