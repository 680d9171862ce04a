------------------------------- MODULE TraceQ02 -------------------------------
(* Q02: tensor Gauss rules of full elements. A rule with n points that is exact up to degree 2n-1 is the Gauss rule, so
   the number of points per direction, the tensor structure and exactness decide it for every order. *)
EXTENDS Lattice, TraceCore

Red(m) == IF m = "Gauss" THEN 0 ELSE IF m = "Gauss_Reduced1" THEN 1 ELSE 2
NP(s, a) == s.p[a] + 1 - Red(s.method)
One == 100000000
Near(a, b, t) == Abs(a - b) <= t

ElVerdict(s, e) ==
    LET n == [a \in Ax |-> NP(s, a)]
        c == CellOf(s.n, e.id - 1)
        U == LU(s)
        Grid(a) == { e.grid[a][k] : k \in 1..Len(e.grid[a]) }
        On(a, x) == \E g \in Grid(a) : Near(1000 * x, U * g, 1000 + U)
    IN UNION {
        IF \A a \in Ax : Len(e.grid[a]) = n[a] THEN {} ELSE {"points-per-direction"},
        IF e.np = n[1] * n[2] * n[3] /\ Len(e.gw) = e.np THEN {} ELSE {"number-of-points"},
        \* tensor structure: all points on the grid lines and pairwise distinct
        IF Cardinality({ e.pts[k] : k \in 1..e.np }) = e.np THEN {} ELSE {"distinct-points"},
        IF \A k \in 1..e.np : \A a \in Ax : On(a, e.pts[k][a]) THEN {} ELSE {"tensor-structure"},
        IF e.neg = 0 /\ \A k \in 1..e.np : e.gw[k] > 0 THEN {} ELSE {"positive-weights"},
        IF e.strict = 1 THEN {} ELSE {"strictly-inside"},
        IF e.mism = 0 THEN {} ELSE {"global-and-parametric-points-agree"},
        IF e.b = << 0, 1000 * U, 0, 1000 * U, 0, 1000 * U >> THEN {} ELSE {"element-bounds"},
        IF e.pb = (IF s.grid = "b_spline_grid"
                   THEN << 1000 * c[1], 1000 * c[1] + 1000, 1000 * c[2], 1000 * c[2] + 1000, 1000 * c[3], 1000 * c[3] + 1000 >>
                   ELSE << 0, 1000, 0, 1000, 0, 1000 >>) THEN {} ELSE {"parametric-bounds"},
        IF e.detj = 1000000 THEN {} ELSE {"determinant"},
        IF \A a \in Ax : \A k \in 0..(2 * n[a] - 1) : Near(e.ax[a][k + 1], One, 5) THEN {} ELSE {"exact-per-direction"},
        IF \A k \in 1..Len(s.mono) : (\A a \in Ax : s.mono[k][a] <= 2 * n[a] - 1) => Near(e.mom[k], One, 5)
            THEN {} ELSE {"exact-monomials"}
       }
Q02Verdict(s, o) ==
    LET U == LU(s)
        V == TLCEval(CellVols(s, s.n, U))
        Full == { k \in 1..Len(o.el) : o.el[k].t = 0 }
    IN UNION {
        IF { o.el[k].id : k \in Full } = { i + 1 : i \in { j \in CellSet(s.n) : V[j] = FullVol6(U) } } THEN {} ELSE {"full-elements"},
        UNION { ElVerdict(s, o.el[k]) : k \in Full }
       }
=============================================================================
