------------------------------ MODULE MCAtRest ------------------------------
EXTENDS AtRest
Three == <<4, 3, 4>>
=============================================================================
