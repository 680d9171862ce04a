------------------------------- MODULE TraceQ01 -------------------------------
(* Q01: quadrature rules of trimmed elements. *)
EXTENDS TrimGeo, TraceCore

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
RECURSIVE Pow10(_)
Pow10(k) == Pow(10, k)

\* exact moments of the part about the centre of the cell, times prod (k_a + 1)
BoxMom(P, U, k) ==
    LET c == U \div 2
    IN Sum(P.e, LAMBDA e : LET D(a) == Pow(e[2][a] - c, k[a] + 1) - Pow(e[1][a] - c, k[a] + 1)
                           IN D(1) * D(2) * D(3))
\* Kuhn tetrahedra: degree at most one per direction. Vertices of the unit tetrahedron t about the cell centre.
TetV(t, c) == LET p == Perms[t[4]]
              IN [m \in 1..4 |-> [a \in Ax |-> t[a] - c + (IF \E j \in 1..(m - 1) : p[j] = a THEN 1 ELSE 0)]]
\* integral of the product over the unit tetrahedron (volume 1/6), times 720
TetInt720(v, k) ==
    LET S(a) == v[1][a] + v[2][a] + v[3][a] + v[4][a]
        S2(a, b) == v[1][a] * v[1][b] + v[2][a] * v[2][b] + v[3][a] * v[3][b] + v[4][a] * v[4][b]
        S3 == v[1][1] * v[1][2] * v[1][3] + v[2][1] * v[2][2] * v[2][3] + v[3][1] * v[3][2] * v[3][3] + v[4][1] * v[4][2] * v[4][3]
        A == { a \in Ax : k[a] = 1 }
    IN IF A = {} THEN 120
       ELSE IF Cardinality(A) = 1 THEN LET a == CHOOSE x \in A : TRUE IN 30 * S(a)
       ELSE IF Cardinality(A) = 2 THEN LET a == Min(A)
                                           b == Max(A)
                                       IN 6 * (S(a) * S(b) + S2(a, b))
       ELSE S(1) * S(2) * S(3) + S2(1, 2) * S(3) + S2(1, 3) * S(2) + S2(2, 3) * S(1) + 2 * S3
KuhnMom720(P, U, k) == Sum(P.e, LAMBDA t : TetInt720(TetV(t, U \div 2), k))

Deg(s) == { <<k1, k2, k3>> : k1 \in 0..s.deg[1], k2 \in 0..s.deg[2], k3 \in 0..s.deg[3] }
MomIdx(s, k) == 1 + k[3] + (s.deg[3] + 1) * (k[2] + (s.deg[2] + 1) * k[1])
K1(k) == (k[1] + 1) * (k[2] + 1) * (k[3] + 1)
\* error bound of a moment, in 1/1000: the residual is relative to the norm of the Legendre moments, which is at most
\* the cell volume times the root of the number of functions
Tol(s, U, k, e) ==
    LET A == K1(k) * Pow(U \div 2, k[1] + k[2] + k[3]) * U * U * U * 12
        \* surface moments of more than degree six on a facet are beyond the boundary rule: 1/200 of the full cell's moment
        B == IF \E a, b \in Ax : a # b /\ k[a] + k[b] > 6
             THEN 40 * 8 * Pow(U \div 2, k[1] + k[2] + k[3] + 3) ELSE 0
    IN 2 + B + (IF e >= 3 THEN A \div Pow10(MinI(e - 3, 9)) ELSE MinI(A, 500000) * 1000)
MomOk(s, P, U, k, m, e) ==
    IF P.k = "box" THEN Abs(m - 1000 * BoxMom(P, U, k)) <= Tol(s, U, k, e)
    ELSE Abs(18 * m - 25 * K1(k) * KuhnMom720(P, U, k)) <= 18 * Tol(s, U, k, e)

\* the point (1/1000 lattice, relative) lies in the closed part up to the rounding of the observation
Pert == { <<3, 5, 7>>, <<3, 5, -7>>, <<3, -5, 7>>, <<3, -5, -7>>, <<-3, 5, 7>>, <<-3, 5, -7>>, <<-3, -5, 7>>, <<-3, -5, -7>>,
          <<0, 1, 2>>, <<2, 1, 0>>, <<7, 5, 3>>, <<-7, -5, -3>>, <<5, 3, -7>>, <<5, -7, 3>>, <<-7, 5, 3>>, <<-5, -3, 7>>, <<-5, 7, -3>>, <<7, -5, -3>> }
ClosedIn(P, U, p) ==
    IF P.k = "box" THEN \E e \in P.e : \A a \in Ax : 1000 * e[1][a] - 1 <= p[a] /\ p[a] <= 1000 * e[2][a] + 1
    ELSE \E q \in Pert : RelTet(<< 10 * p[1] + q[1], 10 * p[2] + q[2], 10 * p[3] + q[3] >>, 10000) \in P.e

ElVerdict(s, o, e) ==
    LET U == LU(s)
        n == s.n
        P == TLCEval(CellPart(s, U, CellOf(n, e.id - 1)))
        W == { w \in 1..Len(o.warn) : o.warn[w][1] = e.id }
        ex == IF W = {} THEN s.resexp ELSE Min({ o.warn[w][2] : w \in W })
        nf == (s.p[1] + 1) * (s.p[2] + 1) * (s.p[3] + 1)
    IN UNION {
        IF e.np >= 1 THEN {} ELSE {"at-least-one-point"},
        IF e.np <= nf THEN {} ELSE {"number-of-points"},
        IF e.neg = 0 THEN {} ELSE {"positive-weights"},
        IF e.mism = 0 THEN {} ELSE {"global-and-parametric-points-agree"},
        IF e.b = << 0, 1000 * U, 0, 1000 * U, 0, 1000 * U >> THEN {} ELSE {"element-bounds"},
        IF \A k \in 1..Len(e.pts) : \A a \in Ax : e.pts[k][a] >= 0 /\ e.pts[k][a] <= 1000 * U THEN {} ELSE {"points-in-element"},
        IF \A k \in 1..Len(e.pts) : ClosedIn(P, U, e.pts[k]) THEN {} ELSE {"points-in-solid"},
        IF \A k \in Deg(s) : MomOk(s, P, U, k, e.mom[MomIdx(s, k)], ex) THEN {} ELSE {"moments"}
       }

\* A thin plate in a single cell: points in it (bounds in the coordinates of the plate), volume and centre exact.
PlateVerdict(s, o) ==
    LET nf == (s.p[1] + 1) * (s.p[2] + 1) * (s.p[3] + 1)
        mx == 5000 * (s.x[1] + s.x[2])
        my == 5000 * (s.y[1] + s.y[2])
        mz == 10000 * s.z0 - (s.sl[1] * mx + s.sl[2] * my) \div 100
        th == (s.tm * (IF s.t > 6 THEN 0 ELSE Pow10(6 - s.t))) \div 2
        One(e) == UNION {
            IF e.id = 1 /\ e.np >= 1 /\ e.np <= nf THEN {} ELSE {"number-of-points"},
            IF e.neg = 0 THEN {} ELSE {"positive-weights"},
            IF e.np = 0 \/ (e.b[1] >= 1000 * s.x[1] - 1 /\ e.b[2] <= 1000 * s.x[2] + 1 /\ e.b[3] >= 1000 * s.y[1] - 1 /\ e.b[4] <= 1000 * s.y[2] + 1 /\ e.b[5] >= -10 /\ e.b[6] <= 100010)
                THEN {} ELSE {"points-in-solid"},
            IF o.warn > 0 \/ (Abs(e.m[1] - 1000000) <= 20 /\ Abs(e.m[2] - mx) <= 20 /\ Abs(e.m[3] - my) <= 20 /\ Abs(e.m[4] - mz - th) <= 20) THEN {} ELSE {"moments"} }
    IN UNION { UNION { One(o.el[k]) : k \in 1..Len(o.el) },
               IF Len(o.el) <= 1 THEN {} ELSE {"one-cell"},
               IF s.t > 3 \/ o.warn > 0 \/ Len(o.el) = 1 THEN {} ELSE {"element-for-every-cut-cell"} }

QuadVerdict(s, o) ==
    LET U == LU(s)
        n == s.n
        V == TLCEval(CellVols(s, n, U))
        ids == { o.el[k].id : k \in 1..Len(o.el) }
        warned == { o.warn[k][1] : k \in 1..Len(o.warn) }
    IN UNION {
        UNION { ElVerdict(s, o, o.el[k]) : k \in 1..Len(o.el) },
        IF \/ "mani" \in DOMAIN s /\ s.mani = 0 \* flawed surfaces may be neglected
           \/ \A i \in CellSet(n) : V[i] > 0 /\ V[i] < FullVol6(U) /\ 1000 * V[i] >= s.minratio * FullVol6(U) /\ i + 1 \notin warned
               => i + 1 \in ids THEN {} ELSE {"element-for-every-cut-cell"},
        IF \A i \in CellSet(n) : i + 1 \in ids => V[i] > 0 /\ V[i] < FullVol6(U) /\ 1000 * V[i] >= s.minratio * FullVol6(U)
            THEN {} ELSE {"elements-in-cut-cells-only"},
        IF Abs(o.sum - o.rep) <= 5 THEN {} ELSE {"represented-volume"},
        IF warned = {} /\ s.resexp >= 6 /\ s.minratio = 1
           => Abs(o.rep - 10000 * Sum(CellSet(n), LAMBDA i : V[i])) <= 50 * NumCells(n) THEN {} ELSE {"represented-volume-of-the-solid"}
       }
\* The elimination on candidates at positions 0..4 of the element. The moments are those of points among the candidates, or
\* those of points beyond all candidates: then no rule reaches even the first moments.
ElimMom(s, i, j, k) == LET M(t) == t[4] * Pow(t[1] - 2, i) * Pow(t[2] - 2, j) * Pow(t[3] - 2, k)
                       IN Sum(1..Len(s.t), LAMBDA m : M(s.t[m]))
ElimVerdict(s, o) ==
    IF "na" \in DOMAIN o THEN {}
    ELSE
    LET C == { s.c[m] : m \in 1..Len(s.c) }
        nf == (s.p[1] + 1) * (s.p[2] + 1) * (s.p[3] + 1)
        reach == \A m \in 1..Len(s.t) : SubSeq(s.t[m], 1, 3) \in C
        beyond == \E a \in Ax : s.p[a] >= 1 /\ (\A m \in 1..Len(s.t), c \in C : s.t[m][a] > c[a])
        Mom == [i \in 0..s.p[1] |-> [j \in 0..s.p[2] |-> [k \in 0..s.p[3] |-> ElimMom(s, i, j, k)]]]
        At(i, j, k) == 1 + k + (s.p[3] + 1) * (j + (s.p[2] + 1) * i)
        tol == 2 + (IF s.resexp >= 8 THEN 0 ELSE (Sum(1..Len(s.t), LAMBDA m : s.t[m][4]) * 30000 * nf) \div Pow10(s.resexp))
    IN UNION {
        IF reach => o.met = 1 /\ o.np >= 1 THEN {} ELSE {"reachable-moments-are-reached"},
        IF beyond => o.claim = 0 THEN {} ELSE {"unreachable-moments-are-reported"},
        IF o.said = 1 /\ o.claim = o.met THEN {} ELSE {"reported-residual"},
        IF o.np <= nf THEN {} ELSE {"number-of-points"},
        IF o.neg = 0 THEN {} ELSE {"positive-weights"},
        IF \A m \in 1..Len(o.pts) : \E c \in C : \A a \in Ax : o.pts[m][a] = 1000 * c[a] THEN {} ELSE {"points-are-candidates"},
        IF o.met = 0 \/ \A i \in 0..s.p[1], j \in 0..s.p[2], k \in 0..s.p[3] : Abs(o.mom[At(i, j, k)] - 1000 * Mom[i][j][k]) <= tol
            THEN {} ELSE {"moments"} }
Q01Verdict(s, o) == IF s.ev = "elim" THEN ElimVerdict(s, o) ELSE IF s.ev = "plate" THEN PlateVerdict(s, o) ELSE QuadVerdict(s, o)
=============================================================================
