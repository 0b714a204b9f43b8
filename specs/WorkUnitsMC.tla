---- MODULE WorkUnitsMC ----
EXTENDS WorkUnitsImpl
F1 == {<<1, 0>>}
F2 == {<<1, 0>>, <<2, 0>>}
F3 == {<<1, 0>>, <<1, 1>>, <<2, 0>>}
E0 == {}
E1 == {<<1, 0>>}
====
