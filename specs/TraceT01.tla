------------------------------- MODULE TraceT01 -------------------------------
(* T01: the boundary of the domain of a cell encloses exactly the solid part of the cell. *)
EXTENDS TrimGeo, TraceCore

Near(x, y, tol) == Abs(x - y) <= tol
\* tolerances in 1/1000 lattice units
\* a solid that touches itself along an edge or at a point: its cells may be neglected, and pieces of no area may remain
Touching(s) == "mani" \in DOMAIN s /\ s.mani = 0
CellVerdict(s, o, c) ==
    LET U == LU(s)
        P == TLCEval(CellPart(s, U, c))
        v == TLCEval(PVol6(P))
        full == FullVol6(U)
        ratio == s.minratio       \* 1/1000 of the cell
        A == { e \in (1..3) \X {FALSE, TRUE} : TRUE }
    IN IF v = 0 \/ v = full THEN (IF o.st = "none" THEN {} ELSE {"domain-in-cut-cells-only"})
       ELSE IF o.st = "none" THEN {"cut-cell-not-trimmed"}
       ELSE IF o.st = "drop" THEN (IF 1000 * v > ratio * full /\ ~Touching(s) THEN {"domain-dropped"} ELSE {})
       ELSE UNION {
        IF 1000 * v < ratio * full THEN {"sliver-not-dropped"} ELSE {},
        IF o.ntri >= s.mintri THEN {} ELSE {"minimum-number-of-triangles"},
        IF \A a \in Ax : Near(o.area[a], 0, 10) THEN {} ELSE {"closed"},
        IF Near(o.vol, 1000 * v, 20) THEN {} ELSE {"volume"},
        IF \A a \in Ax : Near(o.mom[a], 1000 * PMom24(P, a), 200) THEN {} ELSE {"first-moment"},
        IF o.out <= 10 THEN {} ELSE {"facets-in-cell"},
        IF o.badn = 0 THEN {} ELSE {"normals"},
        IF \A a \in Ax : /\ Near(o.pl[2 * a - 1], 500 * PPlane2(P, U, a, FALSE), 10)
                         /\ Near(o.pl[2 * a], 500 * PPlane2(P, U, a, TRUE), 10) THEN {} ELSE {"closing-faces"},
        IF Touching(s) THEN (IF \A a \in Ax : /\ o.bl[a] >= -1 /\ o.bl[a] <= 1000 * PLo(P, a) + 1 /\ o.bh[a] <= 1000 * U + 1 /\ o.bh[a] >= 1000 * PHi(P, a) - 1
                             THEN {} ELSE {"bounds"})
        ELSE IF \A a \in Ax : /\ Near(o.bl[a], 1000 * PLo(P, a), 1) /\ Near(o.bh[a], 1000 * PHi(P, a), 1)
                         /\ Near(o.pl0[a], 1000 * PLo(P, a), 1) /\ Near(o.ph0[a], 1000 * PHi(P, a), 1) THEN {} ELSE {"bounds"},
        IF Cardinality({ k \in 1..Len(s.pts) : LET q == PPoint(P, s.pts[k], s.Q) IN q # "s" /\ o.in[k] # (IF q = "i" THEN 1 ELSE 0) })
              <= (IF Touching(s) THEN 1 ELSE 0) THEN {} ELSE {"inside-test"},
        IF \A k \in 1..Len(s.boxes) :
              LET b == s.boxes[k]
                  w == PBoxVol6(P, b[1], b[2])
                  f == 6 * (b[2][1] - b[1][1]) * (b[2][2] - b[1][2]) * (b[2][3] - b[1][3])
              IN o.box[k] = (IF w = 0 THEN "o" ELSE IF w = f THEN "i" ELSE "t") THEN {} ELSE {"box-state"},
        IF Near(o.ipvol, 1000 * v, 40) /\ Near(o.iparea, 100000, 1) /\ o.ipneg = 0 /\ o.nip >= o.ntri THEN {} ELSE {"boundary-points"}
       }

FullVerdict(s, o) ==
    LET U == LU(s)
        In(p) == IF \A a \in Ax : p[a] > 0 /\ p[a] < U * s.Q THEN "i"
                 ELSE IF \E a \in Ax : p[a] < 0 \/ p[a] > U * s.Q THEN "o" ELSE "s"
    IN UNION {
        IF o.ntri = 12 /\ o.badn = 0 /\ o.out = 0 /\ \A a \in Ax : o.area[a] = 0 THEN {} ELSE {"closed"},
        IF o.vol = 1000 * FullVol6(U) /\ \A a \in Ax : o.mom[a] = 12000 * U * U * U * U THEN {} ELSE {"volume"},
        IF \A k \in 1..6 : o.pl[k] = 1000 * U * U /\ o.fw[k] = 1000 THEN {} ELSE {"closing-faces"},
        IF o.ipvol = 1000 * FullVol6(U) /\ o.iparea = 100000 /\ o.ipneg = 0 THEN {} ELSE {"boundary-points"},
        IF \A k \in 1..Len(s.pts) : LET q == In(s.pts[k]) IN q = "s" \/ o.in[k] = (IF q = "i" THEN 1 ELSE 0) THEN {} ELSE {"inside-test"},
        IF \A k \in 1..Len(s.boxes) :
             LET b == s.boxes[k]
                 st == IF \A a \in Ax : b[1][a] >= 0 /\ b[2][a] <= U THEN "i"
                       ELSE IF \E a \in Ax : b[2][a] <= 0 \/ b[1][a] >= U THEN "o" ELSE "t"
             IN o.box[k] = st THEN {} ELSE {"box-state"}
       }

T01Verdict(s, o) ==
    IF s.ev = "fullcell" THEN FullVerdict(s, o)
    ELSE IF Len(o.cells) # Len(s.cells) THEN {"one-answer-per-cell"}
    ELSE UNION { CellVerdict(s, o.cells[k], s.cells[k]) : k \in 1..Len(s.cells) }
=============================================================================
