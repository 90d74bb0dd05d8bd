-------------------------- MODULE MC_PriorityQueue --------------------------
EXTENDS PriorityQueue
sPrios == 1..3
mPrios == {1, 2, 3, 5, 8, 13}
tPrios == 1..2
yes == TRUE
no == FALSE
=============================================================================
