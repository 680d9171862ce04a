------------------------------- MODULE TraceO01 -------------------------------
(* O01: recorded histories of the octree of a trimmed cell are behaviours of Octree, with the exact state of every box. *)
EXTENDS TrimGeo, Octree, Gauss, TraceCore

Q == 8                       \* coordinates of boxes: 1/8 lattice unit
G == 10000                   \* coordinates of points: 1/80000 lattice unit
Top(s) == Max({0} \cup { s.ops[k].mx : k \in { j \in 1..Len(s.ops) : s.ops[j].op = "refine" /\ s.ops[j].mn <= s.ops[j].mx } })
AllNodes(top) == UNION { {v} \X (0..(2 ^ v - 1)) \X (0..(2 ^ v - 1)) \X (0..(2 ^ v - 1)) : v \in 0..top }
NLo(s, n, a) == Q * s.root[1][a] + ((Q * (s.root[2][a] - s.root[1][a])) \div (2 ^ n[1])) * n[a + 1]
NHi(s, n, a) == NLo(s, n, a) + (Q * (s.root[2][a] - s.root[1][a])) \div (2 ^ n[1])
\* six times the solid volume in a box with coordinates in 1/Q; tetrahedra need lattice boxes
QVol6(P, lo, hi) == IF P.k = "kuhn" THEN Q * Q * Q * PBoxVol6(P, [a \in Ax |-> lo[a] \div Q], [a \in Ax |-> hi[a] \div Q])
                    ELSE 6 * Sum(P.e, LAMBDA e : Overlap(Q * e[1][1], Q * e[2][1], lo[1], hi[1]) * Overlap(Q * e[1][2], Q * e[2][2], lo[2], hi[2])
                                                 * Overlap(Q * e[1][3], Q * e[2][3], lo[3], hi[3]))
ClassV(v, full) == IF v = 0 THEN "o" ELSE IF v = full THEN "i" ELSE "t"
Classes(s, P) == [n \in AllNodes(Top(s)) |->
    LET lo == [a \in Ax |-> NLo(s, n, a)]
        hi == [a \in Ax |-> NHi(s, n, a)]
    IN ClassV(QVol6(P, lo, hi), 6 * (hi[1] - lo[1]) * (hi[2] - lo[2]) * (hi[3] - lo[3]))]
\* points: "i", "o" or, too close to the surface, "s"
QG == Q * G
M == 8
Moved == { << x, y, z >> : x \in {-M, M}, y \in {-2 * M, 2 * M}, z \in {-3 * M, 3 * M} } \cup { << x, y, z >> : x \in {-2 * M, 2 * M}, y \in {-3 * M, 3 * M}, z \in {-M, M} }
         \cup { << x, y, z >> : x \in {-3 * M, 3 * M}, y \in {-M, M}, z \in {-2 * M, 2 * M} } \cup { << x, y, z >> : x \in {-3 * M, 3 * M}, y \in {-2 * M, 2 * M}, z \in {-M, M} }
         \cup { << x, y, z >> : x \in {-2 * M, 2 * M}, y \in {-M, M}, z \in {-3 * M, 3 * M} } \cup { << x, y, z >> : x \in {-M, M}, y \in {-3 * M, 3 * M}, z \in {-2 * M, 2 * M} }
InP(P, p) == IF P.k = "kuhn" THEN RelTet(p, QG) \in P.e
             ELSE \E e \in P.e : \A a \in Ax : QG * e[1][a] < p[a] /\ p[a] < QG * e[2][a]
Clear(P, p) == IF P.k = "kuhn"
               THEN LET r == [a \in Ax |-> p[a] % QG]
                    IN /\ \A a \in Ax : r[a] > 4 * M /\ r[a] < QG - 4 * M
                       /\ \A a \in Ax : \A b \in Ax : a < b => Abs(r[a] - r[b]) > 6 * M
               ELSE \A e \in P.e : \A a \in Ax : Abs(p[a] - QG * e[1][a]) > 4 * M /\ Abs(p[a] - QG * e[2][a]) > 4 * M
PState(P, p) == IF Clear(P, p) THEN (IF InP(P, p) THEN "i" ELSE "o")
                ELSE LET S == { InP(P, [a \in Ax |-> p[a] + d[a]]) : d \in Moved }
                     IN IF S = {TRUE} THEN "i" ELSE IF S = {FALSE} THEN "o" ELSE "s"
GCoord(s, n, g, N) == [a \in Ax |-> G * NLo(s, n, a) + (NHi(s, n, a) - NLo(s, n, a)) * (GX[N[a]][g[a]] \div 100)]
\* the points a tree has to give: << leaf, Gauss index >>, those that must be there and those that may
Must(s, P, C, T, N) == { x \in T.lv \X GIdx(N) : Cls(C, x[1]) = "i" \/ PState(P, GCoord(s, x[1], x[2], N)) = "i" }
May(s, P, C, T, N) == { x \in T.lv \X GIdx(N) : Cls(C, x[1]) = "i" \/ PState(P, GCoord(s, x[1], x[2], N)) # "o" }
\* which leaf and which Gauss point an observed point is
LeafAt(s, T, p) == { n \in T.lv : \A a \in Ax : G * NLo(s, n, a) < p[a] /\ p[a] < G * NHi(s, n, a) }
Named(s, T, N, p) == { x \in LeafAt(s, T, p) \X GIdx(N) : \A a \in Ax : Abs(GCoord(s, x[1], x[2], N)[a] - p[a]) <= NHi(s, x[1], a) - NLo(s, x[1], a) + 2 }
PointClauses(s, P, C, T, op, r) ==
    LET N == op.n
        must == TLCEval(Must(s, P, C, T, N))
        may == TLCEval(May(s, P, C, T, N))
        names == [k \in 1..Len(r.pts) |-> Named(s, T, N, SubSeq(r.pts[k], 1, 3))]
    IN UNION {
        IF r.np >= Cardinality(must) /\ r.np <= Cardinality(may) THEN {} ELSE {"number-of-points"},
        IF r.kept = 1 THEN {} ELSE {"earlier-points-kept"},
        IF r.np # Len(r.pts) THEN {}       \* too many to list
        ELSE IF \E k \in 1..Len(r.pts) : Cardinality(names[k]) # 1 THEN {"point-of-no-leaf"}
        ELSE LET got == UNION { names[k] : k \in 1..Len(r.pts) }
             IN UNION {
                IF Cardinality(got) = Len(r.pts) THEN {} ELSE {"point-twice"},
                IF must \subseteq got THEN {} ELSE {"point-missing"},
                IF got \subseteq may THEN {} ELSE {"point-outside"},
                IF \A k \in 1..Len(r.pts) : LET x == CHOOSE x \in names[k] : TRUE
                                                w == (1000 * GWeight(N, x[2])) \div (8 ^ x[1][1])
                                            IN Abs(r.pts[k][4] - w) <= w \div 500 THEN {} ELSE {"weight"} } }
RECURSIVE Fold(_, _, _, _, _, _, _)
Fold(s, o, P, C, T, k, bad) ==
    IF k > Len(s.ops) THEN bad
    ELSE LET op == s.ops[k]
             r == o.r[k]
         IN IF op.op = "refine"
            THEN LET a == TLCEval(RefineTree(C, T, op.mn, op.mx))
                     T1 == a[1]
                 IN Fold(s, o, P, C, T1, k + 1, bad \cup UNION {
                        IF r.ok = a[2] THEN {} ELSE {"refusal"},
                        IF r.leafs = Cardinality(T1.lv) THEN {} ELSE {"leaves"},
                        IF r.nodes = Cardinality(NodesOf(T1)) THEN {} ELSE {"nodes"},
                        IF r.mn = T1.mn /\ r.mx = T1.mx THEN {} ELSE {"levels"} })
            ELSE Fold(s, o, P, C, T, k + 1, bad \cup PointClauses(s, P, C, T, op, r))
O01Verdict(s, o) ==
    LET P == TLCEval(CellPart(s, LU(s), s.cell))
        v == PVol6(P)
        C == TLCEval(Classes(s, P))
    IN IF v = 0 \/ v = FullVol6(LU(s)) THEN (IF o.dom = 0 THEN {} ELSE {"domain-in-cut-cells-only"})
       ELSE IF o.dom = 0 THEN (IF 1000 * v > 2 * FullVol6(LU(s)) THEN {"domain-missing"} ELSE {})
       ELSE IF Len(o.r) # Len(s.ops) THEN {"answers"}
       ELSE Fold(s, o, P, C, TreeInit, 1, {})
=============================================================================
