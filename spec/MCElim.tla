------------------------------ MODULE MCElim ------------------------------
EXTENDS Elim
=============================================================================
