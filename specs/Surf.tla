--------------------------------- MODULE Surf ---------------------------------
(* Surfaces on the lattice and how the grid splits them: a cell owns what lies in the half-open box (lower, upper],
   the first layer also owns the lower boundary of the grid. A surface is a list of rectangles
   <<axis, sign, plane, u0, u1, v0, v1>> (u, v: the two following axes) or the boundary of a Kuhn body.
   Areas: twice the area projected on a coordinate plane, per axis and orientation, in lattice units. *)
EXTENDS Lattice, TLC

Nx(a) == (a % 3) + 1
Owns(x, lo, hi) == (x > lo \/ (x = 0 /\ lo = 0)) /\ x <= hi
RectArea2(rects, lo, hi, a, sg) ==
    2 * Sum({ i \in 1..Len(rects) : rects[i][1] = a /\ rects[i][2] = sg /\ Owns(rects[i][3], lo[a], hi[a]) },
            LAMBDA i : Overlap(rects[i][4], rects[i][5], lo[Nx(a)], hi[Nx(a)])
                       * Overlap(rects[i][6], rects[i][7], lo[Nx(Nx(a))], hi[Nx(Nx(a))]))
\* boundary facets of the Kuhn body owned by the cell: <<tetrahedron, dropped vertex>>
P3 == { <<a, b, c>> \in Ax \X Ax \X Ax : a # b /\ a # c /\ b # c }
PermIx(q) == CHOOSE p \in 1..6 : Perms[p] = q
Across(t, d) == \* the unit tetrahedron on the other side of the facet
    LET p == Perms[t[4]]
        c == << t[1], t[2], t[3] >>
        Mk(x, q) == << x[1], x[2], x[3], PermIx(q) >>
    IN CASE d = 0 -> Mk([c EXCEPT ![p[1]] = @ + 1], << p[2], p[3], p[1] >>)
         [] d = 3 -> Mk([c EXCEPT ![p[3]] = @ - 1], << p[3], p[1], p[2] >>)
         [] d = 1 -> Mk(c, << p[2], p[1], p[3] >>)
         [] d = 2 -> Mk(c, << p[1], p[3], p[2] >>)
KuhnFacets(b, lo, hi) ==
    LET M == TLCEval(KuhnTets(b, [a \in Ax |-> lo[a] - 2], [a \in Ax |-> hi[a] + 2]))
        InCube(t, A) == \A a \in A : lo[a] <= t[a] /\ t[a] < hi[a]
        Mine(t, d) == LET p == Perms[t[4]]
                      IN IF d = 0 THEN InCube(t, Ax \ {p[1]}) /\ Owns(t[p[1]] + 1, lo[p[1]], hi[p[1]])
                         ELSE IF d = 3 THEN InCube(t, Ax \ {p[3]}) /\ Owns(t[p[3]], lo[p[3]], hi[p[3]])
                         ELSE InCube(t, Ax)
    IN { f \in M \X (0..3) : Mine(f[1], f[2]) /\ Across(f[1], f[2]) \notin M }
\* oriented normal components of a facet: set of <<axis, sign>>
FacetDirs(f) == LET p == Perms[f[1][4]]
                IN CASE f[2] = 0 -> { << p[1], 1 >> }
                     [] f[2] = 3 -> { << p[3], -1 >> }
                     [] f[2] = 1 -> { << p[1], -1 >>, << p[2], 1 >> }
                     [] f[2] = 2 -> { << p[2], -1 >>, << p[3], 1 >> }
\* <<x-, x+, y-, y+, z-, z+>>
CellAreas2(c, lo, hi) ==
    IF Has(c, "rects") THEN [k \in 1..6 |-> RectArea2(c.rects, lo, hi, (k + 1) \div 2, IF k % 2 = 1 THEN -1 ELSE 1)]
    ELSE LET F == TLCEval(KuhnFacets(c, lo, hi))
         IN [k \in 1..6 |-> Cardinality({ f \in F : << (k + 1) \div 2, IF k % 2 = 1 THEN -1 ELSE 1 >> \in FacetDirs(f) })]
SurfaceAreas(c, n, U) == [i \in CellSet(n) |-> CellAreas2(c, CellLo(U, CellOf(n, i)), CellHi(U, CellOf(n, i)))]
=============================================================================
