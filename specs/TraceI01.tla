------------------------------- MODULE TraceI01 -------------------------------
(* I01: reading back what was written gives the triangles of the scenario; a damaged file is refused or read as an  *)
(* outcome that StlFile allows. Corners are << x, y, z, vertex index >> in lattice units.                           *)
EXTENDS StlFile, FiniteSets, BigFile, TraceCore

\* the same damaged files as design model StlParse, at the level of bytes and lines
Pt(p) == << p[1], p[2], p[3] >>
Tri(t) == << Pt(t[1]), Pt(t[2]), Pt(t[3]) >>
Mesh(m) == [i \in 1..Len(m) |-> Tri(m[i])]
Corners(m) == { m[i][k] : i \in 1..Len(m), k \in 1..3 }
\* one vertex per point: corners at one point have one index, corners at two points have two
Welded(m) == LET c == Corners(m) IN Cardinality({ Pt(p) : p \in c }) = Cardinality(c) /\ Cardinality({ p[4] : p \in c }) = Cardinality(c)
OutClauses(s, T, r) ==
    IF r.st = "err" THEN IF MayRefuse(r.k) THEN {} ELSE {"good-file-refused"}
    ELSE IF r.st # "ok" THEN {"no-" \o r.st}
    ELSE IF r.idx # 1 THEN {"index-out-of-range"}
    ELSE LET M == Mesh(r.t) IN UNION {
        IF r.fin = 1 THEN {} ELSE {"coordinates-not-finite"},
        IF MayRead(r.k, T, M) THEN {} ELSE {"triangles-of-" \o r.k},
        IF r.badn = 0 THEN {} ELSE {"normals"},
        IF r.k # "none" \/ (Welded(r.t) /\ r.nv = Cardinality({ Pt(p) : p \in Corners(r.t) }) /\ r.np = r.nv) THEN {} ELSE {"vertices-not-merged"} }
FileVerdict(s, o) == LET T == Mesh(s.tris) IN
    IF Len(o.outs) = 0 \/ o.outs[1].k # "none" THEN {"no-outcome"}
    ELSE UNION { OutClauses(s, T, o.outs[i]) : i \in 1..Len(o.outs) }
I01Verdict(s, o) == IF s.ev = "bigfile" THEN BigVerdict(s, o) ELSE FileVerdict(s, o)
=============================================================================
