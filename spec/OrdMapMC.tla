------------------------------ MODULE OrdMapMC ------------------------------
EXTENDS OrdMap
MCEntries == {<<1, 0>>, <<2, 0>>}
=============================================================================
