---------------------------- MODULE MCTranspose ----------------------------
EXTENDS CakeTranspose
=============================================================================
