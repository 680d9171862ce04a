------------------------------- MODULE TraceP01 -------------------------------
(* P01: what the Python interface shows of a model is what the C++ interface shows.                                 *)
EXTENDS PySeq, PyLife, PyMesh, PySig, TraceCore

Seq2Set(q) == { q[i] : i \in 1..Len(q) }
Diff(name, a, b) == IF a = b THEN {} ELSE {name}
CondView(c) == [n |-> c.n, set |-> c.set, segs |-> c.segs]
BothVerdict(s, o) ==
    UNION {
        \* the settings arrive as they were given, and the model has them
        IF Seq2Set(o.use) = Seq2Set(o.c0) /\ Seq2Set(o.use) = Seq2Set(o.p0) /\ Seq2Set(o.use) = Seq2Set(o.c.set) THEN {} ELSE {"settings-passed"},
        Diff("elements", o.c.el, o.p.el),
        IF s.how = "json" THEN Diff("all-points", o.c.all, o.p.all) ELSE {},
        Diff("number-of-conditions", Len(o.c.conds), Len(o.p.conds)),
        IF Len(o.c.conds) # Len(o.p.conds) THEN {}
        ELSE UNION { UNION { Diff("condition-settings", o.c.conds[k].set, o.p.conds[k].set),
                             Diff("segments", << o.c.conds[k].n, o.c.conds[k].segs >>, << o.p.conds[k].n, o.p.conds[k].segs >>),
                             IF o.p.conds[k].n = Len(o.p.conds[k].segs) THEN {} ELSE {"number-of-segments"} } : k \in 1..Len(o.c.conds) },
        Diff("settings", Seq2Set(o.c.set), Seq2Set(o.p.set)),
        Diff("information", Seq2Set(o.c.info), Seq2Set(o.p.info)),
        Diff("mesh", o.c.mesh, o.p.mesh),
        UNION { IF ProbeOk(o.idx[k]) THEN {} ELSE {"index-of-" \o o.idx[k].what} : k \in 1..Len(o.idx) } }

\* what a use shows is what the object showed when its root was created
RECURSIVE LifeFold(_, _, _, _)
LifeFold(s, o, st, k) ==
    IF k > Len(s.ops) THEN {}
    ELSE LET op == s.ops[k]
             a == TLCEval(Step(st, op))
             bad == IF op.op = "use"
                    THEN LET p == st.o[st.s[op.s]].path
                             ref == { o.ref[i][2] : i \in { j \in 1..Len(o.ref) : o.ref[j][1] = p } }
                         IN IF ref = {o.r[k]} THEN {} ELSE {"use-of-" \o st.o[st.s[op.s]].k}
                    ELSE IF o.r[k] = a[2] THEN {} ELSE {"answer-of-" \o op.op \o op.k}
         IN bad \cup LifeFold(s, o, a[1], k + 1)
LifeVerdict(s, o) == IF Len(o.r) # Len(s.ops) THEN {"answers"} ELSE LifeFold(s, o, Empty(5), 1)
RECURSIVE MeshFold(_, _, _, _)
MeshFold(s, o, st, k) ==
    IF k > Len(s.ops) THEN {}
    ELSE LET a == TLCEval(PmStep(st, s.ops[k])) IN
         (IF o.r[k] = a[2] THEN {} ELSE {"answer-of-" \o s.ops[k].op}) \cup MeshFold(s, o, a[1], k + 1)
CallVerdict(s, o) == UNION { IF CallOk(s.calls[k].c, s.calls[k].a, o.r[k]) THEN {} ELSE {"call-of-" \o s.calls[k].c} : k \in 1..Len(s.calls) }
P01Verdict(s, o) == CASE s.ev = "pylife" -> LifeVerdict(s, o)
                      [] s.ev = "pymesh" -> IF Len(o.r) # Len(s.ops) THEN {"answers"} ELSE MeshFold(s, o, PmEmpty, 1)
                      [] s.ev = "pycall" -> IF Len(o.r) # Len(s.calls) THEN {"answers"} ELSE CallVerdict(s, o)
                      [] OTHER -> BothVerdict(s, o)
=============================================================================
