----------------------------- MODULE EntropyMC -----------------------------
EXTENDS Entropy
MC_Need == <<4, 2, 1>>
=============================================================================
