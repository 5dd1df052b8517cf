--------------------------- MODULE SearchAlg_MC ---------------------------
EXTENDS SearchAlg
Queries == {<<"a", "b">>, <<"a", "a", "b">>}
Queries3 == {<<"a">>, <<"a", "b">>, <<"a", "b", "b">>, <<"a", "z">>}
None == -1
BudgetsQ == {-1, 2, 3}
BudgetsP01 == {-1}
BudgetsP02 == {-1} \cup 0..5
BudgetsP03 == {-1, 3}
BudgetsP04 == {-1, 2}
BudgetsT == {-1, 0, 1, 2, 3, 5}
=============================================================================
