------------------------------ MODULE MCLdl ------------------------------
EXTENDS Ldl
=============================================================================
