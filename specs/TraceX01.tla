------------------------------- MODULE TraceX01 -------------------------------
(* X01: the model part that the finite element code works on holds what the model computed and the user asked for.   *)
EXTENDS KratosView, Surf, TraceCore

KvSet(q) == { q[i] : i \in 1..Len(q) }
KvCount(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
KvSameBag(q, r) == Len(q) = Len(r) /\ \A x \in KvSet(q) \cup KvSet(r) : KvCount(q, x) = KvCount(r, x)
\* a corner may come first or last, the orientation stays
KvTurn(x) == << x[1], x[2], x[3], LET t == x[4] IN { << t[1], t[2], t[3] >>, << t[2], t[3], t[1] >>, << t[3], t[1], t[2] >> } >>
KvTurns(q) == [k \in 1..Len(q) |-> KvTurn(q[k])]
KvShows(st, a, r) ==
    UNION { IF r.a = a THEN {} ELSE {"answer"},
            IF r.bad = 0 THEN {} ELSE {"kinds-of-entities"},
            IF r.ids = << 1, 1 >> THEN {} ELSE {"ids"},
            IF KvSameBag([k \in 1..Len(r.el) |-> KvSet(r.el[k])], [k \in 1..Len(st.el) |-> KvSet(st.el[k])])
               /\ KvSameBag(KvFlat(r.el), KvFlat(st.el)) THEN {} ELSE {"elements"},
            IF KvSet(r.fx) = st.fx THEN {} ELSE {"fixed-degrees-of-freedom"},
            IF KvSet(r.pf) = { << n >> \o st.pf[n] : n \in DOMAIN st.pf } THEN {} ELSE {"forces-on-nodes"},
            IF KvSameBag(KvTurns(r.sup), KvTurns(st.sup)) THEN {} ELSE {"supports"},
            IF r.ld.a = st.ld.a THEN {} ELSE {"loaded-area"},
            IF r.ld.f = st.ld.f THEN {} ELSE {"total-load"},
            IF r.ld.m = st.ld.m THEN {} ELSE {"moment-of-loads"},
            IF r.ld.s = st.ld.s THEN {} ELSE {"points-of-loads"} }
RECURSIVE KvFold(_, _, _, _)
KvFold(s, o, st, k) ==
    IF k > Len(s.ops) THEN {}
    ELSE LET x == TLCEval(KvStep(s, st, s.ops[k]))
             v == KvShows(x[1], x[2], o.r[k])
         IN IF v # {} THEN v ELSE KvFold(s, o, x[1], k + 1)
ProgVerdict(s, o) == IF Len(o.r) # Len(s.ops) THEN {"answers"} ELSE KvFold(s, o, KvStart(s), 1)

\* Meshes. A triangle may start at any of its corners.
TriTurns(q) == [k \in 1..Len(q) |-> LET t == q[k] IN { << t[1], t[2], t[3] >>, << t[2], t[3], t[1] >>, << t[3], t[1], t[2] >> }]
NodeAt(s, id) == LET k == CHOOSE j \in 1..Len(s.nodes) : s.nodes[j][1] = id IN s.nodes[k][2]
MeshVerdict(s, o) ==
    LET tris == IF s.how = "there" THEN s.tris ELSE [k \in 1..Len(s.ents) |-> [j \in 1..Len(s.ents[k][2]) |-> NodeAt(s, s.ents[k][2][j])]]
        ok == \A k \in 1..Len(tris) : Len(tris[k]) = 3
        verts == IF s.how = "there" THEN o.verts ELSE [k \in 1..Len(s.nodes) |-> s.nodes[k][2]]
    IN UNION {
        IF o.kinds = 0 THEN {} ELSE {"unknown-kind-refused"},
        IF s.how = "there" /\ ~KvSameBag(TriTurns(o.ents), TriTurns(tris)) THEN {"triangles-of-model-part"} ELSE {},
        IF s.how = "there" /\ ~KvSameBag(o.nodes, verts) THEN {"nodes-of-model-part"} ELSE {},
        IF s.how = "there" /\ o.ids # << 1, 1 >> THEN {"ids"} ELSE {},
        IF o.a = (IF ok THEN 0 ELSE -1) THEN {} ELSE {"triangles-only"},
        IF o.a = 0 /\ ok THEN UNION { IF KvSameBag(TriTurns(o.back), TriTurns(tris)) THEN {} ELSE {"triangles-of-mesh"},
                              IF KvSameBag(o.bverts, verts) THEN {} ELSE {"vertices-of-mesh"},
                              IF o.normals = 0 THEN {} ELSE {"normals-of-mesh"} } ELSE {} }

\* A whole analysis. A surface counts as far as it lies in the grid; areas are twice the projected areas, in 1/100.
Total(c, n, U) == LET A == TLCEval(SurfaceAreas(c, n, U)) IN [d \in 1..6 |-> Sum(CellSet(n), LAMBDA i : A[i][d])]
RunLoad(c, a) == IF c.type = "PressureLoadCondition" THEN [i \in K3 |-> -c.k * (a[2 * i] - a[2 * i - 1])]
                 ELSE IF c.type = "SurfaceLoadCondition" THEN [i \in K3 |-> c.k * c.d[i] * Sum(1..6, LAMBDA j : a[j])]
                 ELSE [i \in K3 |-> 0]
Abs2(x) == IF x < 0 THEN -x ELSE x
Dofs == { "DISPLACEMENT_X", "DISPLACEMENT_Y", "DISPLACEMENT_Z" }
Multipliers == { "VECTOR_LAGRANGE_MULTIPLIER_X", "VECTOR_LAGRANGE_MULTIPLIER_Y", "VECTOR_LAGRANGE_MULTIPLIER_Z" }
RunVerdict(s, o) ==
    LET A == TLCEval([k \in 1..Len(s.conds) |-> Total(s.conds[k], s.n, LU(s))])
        supports == { k \in 1..Len(s.conds) : s.conds[k].type \in KvSupports /\ A[k] # [d \in 1..6 |-> 0] }
        lagrange == \E k \in 1..Len(s.conds) : s.conds[k].type = "LagrangeSupportCondition"
        keep == SelectSeq(o.model, LAMBDA e : e[1] > 0)
        Is(x, k) == LET c == s.conds[k] IN x[1] = c.type /\ x[2] = c.d /\ x[3] = (IF c.type = "PenaltySupportCondition" THEN c.pen ELSE 0)
        Loads == [i \in K3 |-> Sum(1..Len(s.conds), LAMBDA k : RunLoad(s.conds[k], A[k])[i])]
    IN UNION {
        IF o.early = 0 THEN {} ELSE {"analysis-before-it-is-run"},
        IF o.again = 1 THEN {} ELSE {"second-analysis"},
        IF o.bad = 0 THEN {} ELSE {"kinds-of-entities"},
        IF o.ids = << 1, 1 >> THEN {} ELSE {"ids"},
        IF KvSameBag(o.el, keep) THEN {} ELSE {"elements"},
        IF \A i \in K3 : Abs2(o.f[i] - 100 * Loads[i]) <= 2 + Sum(1..Len(s.conds), LAMBDA k : Abs2(s.conds[k].k)) THEN {} ELSE {"total-load"},
        IF Len(o.sup) = Cardinality(supports) /\ \A k \in supports : \E j \in 1..Len(o.sup) :
               Is(o.sup[j], k) /\ \A d \in 1..6 : Abs2(o.sup[j][4][d] - 100 * A[k][d]) <= 2 THEN {} ELSE {"supports"},
        IF o.box = << 1, 1, 1, 1 >> /\ o.order = s.p /\ o.spans = s.n THEN {} ELSE {"volume"},
        IF KvSet(o.dofs) = (IF lagrange THEN Dofs \cup Multipliers ELSE Dofs) THEN {} ELSE {"degrees-of-freedom"},
        IF { "DISPLACEMENT", "REACTION" } \subseteq KvSet(o.vars) /\ (lagrange => "VECTOR_LAGRANGE_MULTIPLIER" \in KvSet(o.vars)) THEN {} ELSE {"variables"},
        IF o.emb = o.mesh THEN {} ELSE {"embedded-model-part"} }
X01Verdict(s, o) == CASE s.ev = "kprog" -> ProgVerdict(s, o)
                      [] s.ev = "kmesh" -> MeshVerdict(s, o)
                      [] s.ev = "krun" -> RunVerdict(s, o)
=============================================================================
