----------------------------- MODULE MC_Scopes -----------------------------
EXTENDS Scopes
sOuts == {"t1"}
sIns == {"i1"}
mOuts == {"t1", "t2", "t3"}
mIns == {"i1", "i2"}
=============================================================================
