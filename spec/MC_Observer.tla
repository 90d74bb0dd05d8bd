---------------------------- MODULE MC_Observer ----------------------------
EXTENDS Observer
sObs == 1..2
sScopes == {1}
sValues == {7}
mObs == 1..5
mScopes == 1..3
mValues == {7, 8, 9}
=============================================================================
