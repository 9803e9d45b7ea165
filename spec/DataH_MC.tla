------------------------------ MODULE DataH_MC ------------------------------
EXTENDS DataH
MCNames == <<"a", "b">>
MCOut == {}
MCNA == 0 - 1
MCValues == {0 - 1, 0, 2}
=============================================================================
