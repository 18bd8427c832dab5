--------------------------------- MODULE P2PMC -------------------------------
EXTENDS P2P
==============================================================================
