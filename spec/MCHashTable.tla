---------------------------- MODULE MCHashTable ----------------------------
EXTENDS HashTable
Strs == {<<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 0, 1>>, <<2, 0, 1, 1>>, <<1, 2, 0, 1, 1>>}
=============================================================================
