------------------------------- MODULE HtabMC ------------------------------
(* Small instance of HtabImpl: five keys, three of which collide.           *)
EXTENDS Integers
VARIABLES slots, nelt, ndead, m
H(k) == CASE k = 1 -> 1 [] k = 2 -> 1 [] k = 3 -> 1 [] k = 4 -> 2 [] k = 5 -> 4
INSTANCE HtabImpl WITH Keys <- 1..5, Hash <- H, Sz0 <- 4, MaxSz <- 8, Vals <- {1, 2}
============================================================================
