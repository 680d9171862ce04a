------------------------------- MODULE Lattice -------------------------------
(* Exact geometry of solids on an integer lattice: the abstract state every geometric property is stated on.        *)
(*                                                                                                                  *)
(* A body is either a union of boxes of the product of three lists of plane coordinates (kind "box") or a union of  *)
(* Kuhn tetrahedra of cubes of size s (kind "kuhn": each cube is split into the six tetrahedra                      *)
(* {x : s >= x_p1 >= x_p2 >= x_p3 >= 0}, one per permutation p). A background grid cell is a cube of U lattice      *)
(* units; the grid starts at lattice coordinate 0. All volumes are integers in units of 1/6 lattice cube.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Cl(x, lo, hi) == MaxI(lo, MinI(x, hi))
Overlap(a1, a2, b1, b2) == MaxI(0, MinI(a2, b2) - MaxI(a1, b1))
Sum(S, Op(_)) == MapThenSumSet(Op, S)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

Ax == 1..3
Has(s, f) == f \in DOMAIN s
Get(s, f, d) == IF f \in DOMAIN s THEN s[f] ELSE d
(* scenario fields that have defaults *)
LU(s) == Get(s, "U", 4)
Kind(s) == Get(s, "kind", "box")

-----------------------------------------------------------------------------
(* Grid cells: 0-based index, x fastest *)
NumCells(n) == n[1] * n[2] * n[3]
CellIdx(n, c) == c[1] + n[1] * (c[2] + n[2] * c[3])
CellOf(n, i) == << i % n[1], (i \div n[1]) % n[2], i \div (n[1] * n[2]) >>
CellSet(n) == 0..(NumCells(n) - 1)
CellLo(U, c) == << U * c[1], U * c[2], U * c[3] >>
CellHi(U, c) == << U * (c[1] + 1), U * (c[2] + 1), U * (c[3] + 1) >>

-----------------------------------------------------------------------------
(* Box bodies *)
NB(b, a) == Len(b.planes[a]) - 1
BoxIds(b) == { t \in (1..Len(b.mat)) : b.mat[t] = 1 }
\* 1-based box coordinate of the material entry t on axis a
BoxCo(b, t, a) == LET z == t - 1
                  IN IF a = 1 THEN 1 + (z % NB(b, 1))
                     ELSE IF a = 2 THEN 1 + ((z \div NB(b, 1)) % NB(b, 2))
                     ELSE 1 + (z \div (NB(b, 1) * NB(b, 2)))
BoxLo(b, t) == [a \in Ax |-> b.planes[a][BoxCo(b, t, a)]]
BoxHi(b, t) == [a \in Ax |-> b.planes[a][BoxCo(b, t, a) + 1]]
\* volume of the box body inside the box [lo, hi] (all coordinates scaled by q)
BoxBodyVol(b, lo, hi, q) ==
    Sum(BoxIds(b), LAMBDA t : LET l1 == BoxLo(b, t)
                                  h1 == BoxHi(b, t)
                              IN Overlap(q * l1[1], q * h1[1], lo[1], hi[1]) * Overlap(q * l1[2], q * h1[2], lo[2], hi[2])
                                 * Overlap(q * l1[3], q * h1[3], lo[3], hi[3]))
\* open-set membership of a point with coordinates scaled by q (points on planes belong to no box)
InBoxBody(b, p, q) == \E t \in BoxIds(b) : \A a \in Ax : q * BoxLo(b, t)[a] < p[a] /\ p[a] < q * BoxHi(b, t)[a]

-----------------------------------------------------------------------------
(* Kuhn bodies *)
Perms == << <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>> >>
\* index of the permutation that sorts r in descending order (r has distinct entries)
PermOf(r) == CHOOSE p \in 1..6 : r[Perms[p][1]] >= r[Perms[p][2]] /\ r[Perms[p][2]] >= r[Perms[p][3]]
KuhnAt(b, cube, p) == /\ \A a \in Ax : cube[a] >= 0 /\ cube[a] < b.N[a]
                      /\ b.mat[6 * (cube[1] + b.N[1] * (cube[2] + b.N[2] * cube[3])) + p] = 1
\* membership of a point scaled by q; the point must not lie on a face of the macro tetrahedra
InKuhn(b, x, q) == LET w == q * b.s
                       d == [a \in Ax |-> x[a] - q * b.o[a]]
                       cube == [a \in Ax |-> d[a] \div w]
                       r == [a \in Ax |-> d[a] % w]
                   IN /\ \A a \in Ax : cube[a] >= 0 /\ cube[a] < b.N[a]
                      /\ KuhnAt(b, cube, PermOf(r))
\* the unit tetrahedra of a lattice box that lie in the body; a unit tetrahedron is represented by its barycentre * 4
UnitTets(lo, hi) == { <<x, y, z, p>> : x \in lo[1]..(hi[1] - 1), y \in lo[2]..(hi[2] - 1), z \in lo[3]..(hi[3] - 1), p \in 1..6 }
Bary4(t) == LET p == Perms[t[4]]
            IN [a \in Ax |-> 4 * t[a] + (IF p[1] = a THEN 3 ELSE IF p[2] = a THEN 2 ELSE 1)]
KuhnTets(b, lo, hi) == { t \in UnitTets(lo, hi) : InKuhn(b, Bary4(t), 4) }
KuhnVol6(b, lo, hi) == Cardinality(KuhnTets(b, lo, hi))

-----------------------------------------------------------------------------
(* Both kinds *)
Vol6(b, lo, hi) == IF Kind(b) = "kuhn" THEN KuhnVol6(b, lo, hi) ELSE 6 * BoxBodyVol(b, lo, hi, 1)
CellVol6(b, U, c) == Vol6(b, CellLo(U, c), CellHi(U, c))
FullVol6(U) == 6 * U * U * U
CellVols(b, n, U) == [i \in CellSet(n) |-> CellVol6(b, U, CellOf(n, i))]
ClassOf(v, U) == IF v = 0 THEN "o" ELSE IF v = FullVol6(U) THEN "i" ELSE "t"
InBody(b, p, q) == IF Kind(b) = "kuhn" THEN InKuhn(b, p, q) ELSE InBoxBody(b, p, q)
\* total volume of the body
BodyVol6(b) == IF Kind(b) = "kuhn"
               THEN b.s * b.s * b.s * Cardinality({ i \in 1..Len(b.mat) : b.mat[i] = 1 })
               ELSE 6 * Sum(BoxIds(b), LAMBDA t : (BoxHi(b, t)[1] - BoxLo(b, t)[1]) * (BoxHi(b, t)[2] - BoxLo(b, t)[2])
                                                  * (BoxHi(b, t)[3] - BoxLo(b, t)[3]))
=============================================================================
