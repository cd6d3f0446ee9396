------------------------------- MODULE IsoGen -------------------------------
EXTENDS Isolation
=============================================================================
