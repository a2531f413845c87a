----------------------------- MODULE ConformMC -----------------------------
EXTENDS Conform
Shards == PropInt("vshards", 8)
=============================================================================
