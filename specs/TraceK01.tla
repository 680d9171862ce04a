------------------------------- MODULE TraceK01 -------------------------------
(* K01: recorded histories of mesh operations are behaviours of MeshOps, and the measures are those of the mesh. *)
EXTENDS MeshOps, TraceCore

NearV(x, y, tol) == AbsV(x - y) <= tol
RECURSIVE Root(_, _, _)
Root(n, a, b) == IF b - a <= 1 THEN a ELSE LET c == (a + b) \div 2 IN IF c <= n \div c THEN Root(n, c, b) ELSE Root(n, a, c)
SqrtI(n) == IF n = 0 THEN 0 ELSE Root(n, 1, 46341)
RECURSIVE Area2x10(_, _)
Area2x10(m, k) == IF k > Len(m) THEN 0 ELSE SqrtI(100 * N2(m[k])) + Area2x10(m, k + 1)
NotInt == 999999999
IsInt(m) == \A k \in 1..Len(m) : \A j \in 1..3 : \A a \in Ax : m[k][j][a] # NotInt
LookClauses(m, r) ==
    LET n == Len(m)
        A == Area2x10(m, 1)
        v == AbsV(Vol6(m))
    IN UNION {
        IF r.n = n THEN {} ELSE {"number-of-triangles"},
        IF r.area >= A - n /\ r.area <= A + 2 * n THEN {} ELSE {"area"},
        IF NearV(r.areap, r.area, 1) THEN {} ELSE {"parallel-area"},
        IF NearV(r.vol, 10 * v, 10) THEN {} ELSE {"volume"},
        IF NearV(r.volp, r.vol, 1) THEN {} ELSE {"parallel-volume"},
        IF \A a \in Ax : NearV(r.vd[a], 10 * AbsV(VolDir6(m, a) \div 1), 20) THEN {} ELSE {"volume-per-direction"},
        IF n = 0 \/ \A a \in Ax : r.lo[a] = Lo(m, a) /\ r.hi[a] = Hi(m, a) THEN {} ELSE {"bounding-box"},
        IF ~Closed(m) \/ r.q = 0 THEN {} ELSE {"quality-of-closed-mesh"},
        \* a mesh with an open area vector has at least that error
        IF Closed(m) \/ A = 0 \/ \A a \in Ax : LET e == AbsV(AreaVec2(m)[a]) IN (1000 * e) \div (A \div 10 + 1) <= r.q \div 1000 + 10 THEN {} ELSE {"quality-of-open-mesh"},
        IF r.views = 0 THEN {} ELSE {"views"},
        IF r.asp = 1 THEN {} ELSE {"aspect-ratios"} }
RECURSIVE Fold(_, _, _, _, _)
Fold(s, o, st, k, bad) ==
    IF k > Len(s.ops) THEN bad
    ELSE LET op == s.ops[k]
             r == o.r[k]
             new == r.m[op.r].t
             ok == IsInt(new) /\ \A q \in 1..Len(st.m) : q = op.r \/ SameMesh(r.m[q].t, st.m[q])
         IN IF ~IsInt(new) THEN
                \* beyond the resolution of the lattice: only a refinement gets there
                bad \cup (IF op.op = "refine" /\ ~RefineBlocks(Blocks(st.m[op.r]), op.mn)[2] THEN {} ELSE {"off-the-lattice"})
            ELSE LET st1 == TLCEval(Become(st, op, new))
                     b == UNION {
                        IF Allowed(st, op, new) THEN {} ELSE {"result-of-" \o op.op},
                        IF \A q \in 1..Len(st.m) : q = op.r \/ r.m[q].t = st.m[q] THEN {} ELSE {"other-mesh-changed"},
                        IF \A q \in 1..Len(st.m) : r.m[q].chk = 1 THEN {} ELSE {"index-out-of-range"},
                        IF \A q \in 1..Len(st.m) : r.m[q].badn = 0 THEN {} ELSE {"normals"},
                        IF \A q \in 1..Len(st.m) : st1.w[q] => r.m[q].open = 0 THEN {} ELSE {"not-watertight"},
                        IF op.op = "look" THEN LookClauses(new, r) ELSE {} }
                 IN Fold(s, o, st1, k + 1, bad \cup b)

Fact == << 1, 1, 2, 6, 24, 120, 720 >>
F(n) == Fact[n + 1]
Exact(i, j, k) == LET d == i + j + k
                      multi == F(d) \div (F(i) * F(j) * F(k))
                  IN 1000000000 \div (multi * (d + 1) * (d + 2))
Degree == << 1, 2, 4, 6, 6 >>
RuleVerdict(s, o) == LET t == << s.p[1], s.p[2], s.p[3] >> IN UNION {
    IF o.np >= 1 THEN {} ELSE {"points"},
    IF o.out = 0 THEN {} ELSE {"points-in-triangle"},
    IF o.neg = 0 THEN {} ELSE {"positive-weights"},
    IF o.badn = 0 /\ o.nrm = 1 THEN {} ELSE {"normal"},
    IF NearV(o.area, 100 * SqrtI(100 * N2(t)), 110) THEN {} ELSE {"area"},
    IF \A a \in Ax : o.c3[a] = 1000 * (t[1][a] + t[2][a] + t[3][a]) THEN {} ELSE {"centre"},
    \* the integral of the products of barycentric coordinates: 2 i! j! k! / (i + j + k + 2)!
    IF \A q \in 1..Len(o.mom) : LET e == o.mom[q] IN (e[1] + e[2] + e[3] <= Degree[s.method + 1]) => NearV(e[4], Exact(e[1], e[2], e[3]), 1000)
       THEN {} ELSE {"exactness"},
    IF \E q \in 1..Len(o.mom) : o.mom[q][1] = Degree[s.method + 1] THEN {} ELSE {"moments"} }
\* a box in many triangles
BoxArea(s) == LET d == [a \in Ax |-> s.hi[a] - s.lo[a]] IN 2 * (d[1] * d[2] + d[1] * d[3] + d[2] * d[3])
BoxVol(s) == (s.hi[1] - s.lo[1]) * (s.hi[2] - s.lo[2]) * (s.hi[3] - s.lo[3])
BigVerdict(s, o) == LET ok(x) == NearV(x[1], 1000 * BoxArea(s), 1) /\ NearV(x[2], 1000 * BoxVol(s), 1) IN UNION {
    IF o.n >= s.nt /\ o.chk = 1 THEN {} ELSE {"result-of-refine"},
    IF ok(o.s) THEN {} ELSE {"area", "volume"},
    IF \A k \in 1..Len(o.p) : ok(o.p[k]) THEN {} ELSE {"parallel-area-or-volume"} }
K01Verdict(s, o) == IF s.ev = "bigmesh" THEN BigVerdict(s, o)
                    ELSE IF s.ev = "trirule" THEN RuleVerdict(s, o)
                    ELSE IF Len(o.r) # Len(s.ops) THEN {"answers"} ELSE Fold(s, o, MeshInit(3), 1, {})
=============================================================================
