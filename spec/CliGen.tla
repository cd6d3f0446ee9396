------------------------------- MODULE CliGen -------------------------------
EXTENDS Cli
=============================================================================
