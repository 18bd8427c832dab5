-------------------------------- MODULE SingleMC -----------------------------
EXTENDS Single, TLC
==============================================================================
