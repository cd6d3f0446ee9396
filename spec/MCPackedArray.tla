---------------------------- MODULE MCPackedArray ----------------------------
EXTENDS PackedArray
=============================================================================
