-------------------------------- MODULE Gauss --------------------------------
(* Gauss-Legendre rules on (0,1): abscissae in 1/1000000, weights in 1/10000, for 1..5 points. *)
EXTENDS Integers, Sequences
GX == << <<500000>>,
         <<211325, 788675>>,
         <<112702, 500000, 887298>>,
         <<69432, 330009, 669991, 930568>>,
         <<46910, 230765, 500000, 769235, 953090>> >>
GW == << <<10000>>,
         <<5000, 5000>>,
         <<2778, 4444, 2778>>,
         <<1739, 3261, 3261, 1739>>,
         <<1185, 2393, 2844, 2393, 1185>> >>
\* the tensor rule of n = <<n1, n2, n3>> points
GIdx(n) == { <<i, j, k>> : i \in 1..n[1], j \in 1..n[2], k \in 1..n[3] }
GPoint(n, g) == [a \in {1, 2, 3} |-> GX[n[a]][g[a]]]
\* weight of a point, relative to the cell, in 1/1000000
GWeight(n, g) == (((GW[n[1]][g[1]] * GW[n[2]][g[2]]) \div 1000) * GW[n[3]][g[3]]) \div 1000
=============================================================================
