------------------------------ MODULE Claim_MC ------------------------------
EXTENDS Claim
=============================================================================
