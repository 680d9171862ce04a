------------------------------- MODULE TraceC02 -------------------------------
(* C02: runs with different numbers of threads and repeated runs agree. *)
EXTENDS Surf, TraceCore

Near(a, b, t) == Abs(a - b) <= t
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
SameEl(s, a, b) ==
    LET U == LU(s)
        tol == 4 + (12 * 12 * U * U * U * 1000) \div Pow10(s.resexp)
    IN Len(a) = Len(b) /\ \A k \in 1..Len(a) :
        /\ a[k][1] = b[k][1] /\ a[k][2] = b[k][2]
        /\ a[k][2] = 0 => a[k][3] = b[k][3]
        /\ Near(a[k][4], b[k][4], IF a[k][2] = 0 THEN 1 ELSE tol)
\* parts without area (facets that only touch a cell) are not compared
Thick(g) == \E d \in 1..6 : g.a[d] > 2
SameSegs(x, y) == LET a == SelectSeq(x, Thick)
                      b == SelectSeq(y, Thick)
                  IN Len(a) = Len(b) /\ \A k \in 1..Len(a) :
        a[k].c = b[k].c /\ a[k].act = b[k].act /\ a[k].par = b[k].par /\ \A d \in 1..6 : Near(a[k].a[d], b[k].a[d], 2)
\* A block in a large grid: the counts follow per direction.
CrowdVerdict(s, o) ==
    LET U == LU(s)
        In(a) == Cardinality({ i \in 0..(s.n[a] - 1) : U * i >= s.lo[a] /\ U * (i + 1) <= s.hi[a] })
        On(a) == Cardinality({ i \in 0..(s.n[a] - 1) : U * i < s.hi[a] /\ U * (i + 1) > s.lo[a] })
        full == In(1) * In(2) * In(3)
        cut == On(1) * On(2) * On(3) - full
        rest == s.n[1] * s.n[2] * s.n[3] - full - cut
        vol == (s.hi[1] - s.lo[1]) * (s.hi[2] - s.lo[2]) * (s.hi[3] - s.lo[3])
        Cells(p, q) == ((q + U - 1) \div U) - (p \div U)
        \* the cells that hold something of the block reach from Dn to Up
        Dn(a) == U * (s.lo[a] \div U)
        Up(a) == U * ((s.hi[a] + U - 1) \div U)
        SheetOk(q, c) ==
            LET all == (q[3] - q[1]) * (q[4] - q[2])
                act == IF q[5] < Dn(3) \/ q[5] > Up(3) THEN 0 ELSE Overlap(q[1], q[3], Dn(1), Up(1)) * Overlap(q[2], q[4], Dn(2), Up(2))
            IN /\ c.cells = Cells(q[1], q[3]) * Cells(q[2], q[4])
               /\ Near(c.all, 1000 * all, 2) /\ Near(c.active, 1000 * act, 2) /\ Near(c.perc, (10000 * act) \div all, 2)
    IN UNION { LET r == o.runs[k] IN UNION {
           IF r.cls = << full, cut, rest >> THEN {} ELSE {"exact-classification"},
           IF r.el = << full, cut, full + cut >> THEN {} ELSE {"elements"},
           IF r.info = << full, cut, rest >> THEN {} ELSE {"information"},
           IF Near(r.vol, 1000 * vol, 2 + vol) THEN {} ELSE {"represented-volume"},
           IF Len(r.conds) = Len(s.sheets) /\ \A c \in 1..Len(s.sheets) : SheetOk(s.sheets[c], r.conds[c]) THEN {} ELSE {"condition-segments"} }
           : k \in 1..Len(o.runs) }
ThreadsVerdict(s, o) ==
    LET U == LU(s)
        V == TLCEval(CellVols(s, s.n, U))
        f == o.runs[1]
    IN UNION {
        \* the common result is the exact one
        IF Len(f.cls) = NumCells(s.n) /\ \A i \in CellSet(s.n) : f.cls[i + 1] = ClassOf(V[i], U) THEN {} ELSE {"exact-classification"},
        UNION { LET r == o.runs[k]
                IN UNION {
                    IF r.cls = f.cls THEN {} ELSE {"classification"},
                    IF SameEl(s, r.el, f.el) THEN {} ELSE {"elements"},
                    IF r.full = 1 THEN {} ELSE {"rules-of-full-elements"},
                    IF r.info = f.info THEN {} ELSE {"information"},
                    IF Len(r.conds) = Len(f.conds) /\ \A c \in 1..Len(r.conds) :
                        r.conds[c].id = f.conds[c].id /\ SameSegs(r.conds[c].segs, f.conds[c].segs) THEN {} ELSE {"condition-segments"}
                   } : k \in 2..Len(o.runs) }
       }
C02Verdict(s, o) == IF s.ev = "crowd" THEN CrowdVerdict(s, o) ELSE ThreadsVerdict(s, o)
=============================================================================
