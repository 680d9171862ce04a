------------------------------- MODULE TrimGeo -------------------------------
(* The solid part of one grid cell, in lattice coordinates relative to the lower corner of the cell. *)
EXTENDS Lattice

\* solid parts of cell c: boxes (clipped to the cell, relative) or unit tetrahedra (relative)
PartBoxes(b, U, c) ==
    LET L == CellLo(U, c)
    IN { << [a \in Ax |-> MaxI(0, BoxLo(b, t)[a] - L[a])], [a \in Ax |-> MinI(U, BoxHi(b, t)[a] - L[a])] >> :
            t \in { x \in BoxIds(b) : \A a \in Ax : BoxLo(b, x)[a] < L[a] + U /\ BoxHi(b, x)[a] > L[a] } }
PartTets(b, U, c) == LET L == CellLo(U, c)
                     IN { << t[1] - L[1], t[2] - L[2], t[3] - L[3], t[4] >> : t \in KuhnTets(b, L, CellHi(U, c)) }
CellPart(b, U, c) == IF Kind(b) = "kuhn" THEN [k |-> "kuhn", e |-> PartTets(b, U, c)]
                     ELSE [k |-> "box", e |-> PartBoxes(b, U, c)]
BV(e) == (e[2][1] - e[1][1]) * (e[2][2] - e[1][2]) * (e[2][3] - e[1][3])
Oth(a, k) == IF a = 1 THEN (IF k = 1 THEN 2 ELSE 3) ELSE IF a = 2 THEN (IF k = 1 THEN 1 ELSE 3) ELSE (IF k = 1 THEN 1 ELSE 2)
BA(e, a) == (e[2][Oth(a, 1)] - e[1][Oth(a, 1)]) * (e[2][Oth(a, 2)] - e[1][Oth(a, 2)])
PVol6(P) == IF P.k = "kuhn" THEN Cardinality(P.e) ELSE 6 * Sum(P.e, LAMBDA e : BV(e))
\* 24 * first moment
PMom24(P, a) == IF P.k = "kuhn" THEN Sum(P.e, LAMBDA t : Bary4(t)[a])
                ELSE 12 * Sum(P.e, LAMBDA e : (e[2][a] * e[2][a] - e[1][a] * e[1][a]) * BA(e, a))
\* twice the area of the trace on the cell plane (axis a, upper or lower side)
PPlane2(P, U, a, up) ==
    IF P.k = "kuhn"
    THEN Cardinality({ t \in P.e : IF up THEN t[a] = U - 1 /\ Perms[t[4]][1] = a ELSE t[a] = 0 /\ Perms[t[4]][3] = a })
    ELSE 2 * Sum({ e \in P.e : IF up THEN e[2][a] = U ELSE e[1][a] = 0 }, LAMBDA e : BA(e, a))
PLo(P, a) == Min({ IF P.k = "kuhn" THEN e[a] ELSE e[1][a] : e \in P.e })
PHi(P, a) == Max({ IF P.k = "kuhn" THEN e[a] + 1 ELSE e[2][a] : e \in P.e })
\* volume within a relative lattice box
PBoxVol6(P, lo, hi) ==
    IF P.k = "kuhn" THEN Cardinality({ t \in P.e : \A a \in Ax : t[a] >= lo[a] /\ t[a] < hi[a] })
    ELSE 6 * Sum(P.e, LAMBDA e : Overlap(e[1][1], e[2][1], lo[1], hi[1]) * Overlap(e[1][2], e[2][2], lo[2], hi[2])
                                 * Overlap(e[1][3], e[2][3], lo[3], hi[3]))
\* point in 1/q lattice units: "i", "o" or "s" (surface)
RelTet(p, q) == LET c == [a \in Ax |-> p[a] \div q]
                    r == [a \in Ax |-> p[a] % q]
                IN << c[1], c[2], c[3], PermOf(r) >>
Eps3 == { <<a, b, c>> : a \in {-1, 1}, b \in {-1, 1}, c \in {-1, 1} }
PPoint(P, p, q) ==
    IF P.k = "kuhn" THEN (IF RelTet(p, q) \in P.e THEN "i" ELSE "o")
    ELSE LET I == { s \in Eps3 : \E e \in P.e : \A a \in Ax : 2 * q * e[1][a] < 2 * p[a] + s[a] /\ 2 * p[a] + s[a] < 2 * q * e[2][a] }
         IN IF I = Eps3 THEN "i" ELSE IF I = {} THEN "o" ELSE "s"
=============================================================================
