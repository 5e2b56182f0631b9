----------------------------- MODULE MCInterleave -----------------------------
EXTENDS Interleave
S1 == <<1, 2>>
S2 == <<1, 1>>
S3 == <<1, 2, 1>>
S4 == <<1, 2, 3>>
=============================================================================
