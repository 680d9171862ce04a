------------------------------- MODULE TraceB01 -------------------------------
(* B01: a condition surface is split over the cells without loss or overlap. *)
EXTENDS Surf, TraceCore

Near(a, b, t) == Abs(a - b) <= t
Zero6 == << 0, 0, 0, 0, 0, 0 >>

CondVerdict(s, o, c, r) ==
    LET U == LU(s)
        n == s.n
        \* cells that a facet merely touches may hold a part without area
        Thin(g) == \A d \in 1..6 : g.a[d] = 0
        real == { k \in 1..Len(r.segs) : ~Thin(r.segs[k]) }
        A == TLCEval(SurfaceAreas(c, n, U))
        cells == { r.segs[k].c : k \in real }
        ids == { o.el[k][1] : k \in 1..Len(o.el) }
    IN UNION {
        IF r.nseg = Len(r.segs) THEN {} ELSE {"number-of-segments"},
        IF Cardinality(cells) = Cardinality(real) THEN {} ELSE {"one-part-per-cell"},
        IF cells = { i \in CellSet(n) : A[i] # Zero6 } THEN {} ELSE {"a-part-in-every-touched-cell"},
        UNION { LET g == r.segs[k]
                IN IF Thin(g) THEN (IF (g.act = 1 /\ g.par \in ids) \/ (g.act = 0 /\ g.par = 0) THEN {} ELSE {"active-flag"})
                   ELSE IF g.c \notin CellSet(n) THEN {"part-in-grid"}
                   ELSE UNION {
                    IF \A d \in 1..6 : Near(g.a[d], 1000 * A[g.c][d], 2) THEN {} ELSE {"area-and-orientation"},
                    IF \A a \in Ax : g.b[2 * a - 1] >= 0 /\ g.b[2 * a] <= 1000 * U THEN {} ELSE {"within-cell"},
                    IF g.bn = 0 THEN {} ELSE {"normals"},
                    IF g.bi = 0 THEN {} ELSE {"integration-points"},
                    IF g.act = (IF g.c + 1 \in ids THEN 1 ELSE 0) /\ g.par = (IF g.c + 1 \in ids THEN g.c + 1 ELSE 0) THEN {} ELSE {"active-flag"} }
              : k \in 1..Len(r.segs) },
        IF r.area = 1000000 THEN {} ELSE {"reported-area"},
        IF Near(r.perc, r.share, 1) THEN {} ELSE {"reported-percentage"}
       }
B01Verdict(s, o) ==
    IF Len(o.conds) # Len(s.conds) THEN {"one-condition-each"}
    ELSE UNION { CondVerdict(s, o, s.conds[k], o.conds[k]) : k \in 1..Len(s.conds) }
         \cup (IF o.unchanged = 1 THEN {} ELSE {"inputs-unchanged"})
=============================================================================
