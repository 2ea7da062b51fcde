------------------------------- MODULE MCNego -------------------------------
EXTENDS Nego
B == {-9, -1, 7, 8, 512, 513}
W == {-9, 0, 1, 4, 5}
O == {-9, 0, 2, 3}
S == {-9, -1, 100}
LimitsDef == {[mb |-> 513, mw |-> 4, rt |-> 2]}
=============================================================================
