------------------------------- MODULE TraceS01 -------------------------------
(* S01: recorded histories of a model are behaviours of ModelHistory, and what the model shows in a state is what a
   model created from the settings shows. *)
EXTENDS ModelHistory, TraceCore

Abs0(x) == IF x < 0 THEN -x ELSE x
NearSeq(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs0(a[i] - b[i]) <= t
SameEl(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SubSeq(a[i], 1, 3) = SubSeq(b[i], 1, 3) /\ NearSeq(a[i], b[i], 2)
\* information about the volume: unset before it is created
InfoUnset(x) == \A i \in 1..Len(x) : x[i] = -1
SameCond(c, r) == /\ c.id = r.id /\ c.iid = r.id /\ c.own = 1 /\ c.nseg = r.nseg
                  /\ Abs0(c.area - r.area) <= 1 /\ Abs0(c.perc - r.perc) <= 1
                  /\ Len(c.segs) = Len(r.segs) /\ \A i \in 1..Len(c.segs) : NearSeq(c.segs[i], r.segs[i], 2) /\ SubSeq(c.segs[i], 1, 4) = SubSeq(r.segs[i], 1, 4)
FileSet(m, s) == IF ~m.written THEN {}
                 ELSE {"elements.vtk", "integration_points.vtk", "model_info.json"} \cup { "condition_id_" \o ToString(s.conds[k].id) \o ".stl" : k \in m.wconds }
Ran(q) == { q[i] : i \in 1..Len(q) }
\* a snapshot in state m
SnapClauses(s, o, m, r) == UNION {
    IF SameEl(r.el, IF m.vol THEN o.ref.el ELSE << >>) THEN {} ELSE {"elements"},
    IF (IF m.vol THEN NearSeq(r.info, o.ref.info, 2) ELSE InfoUnset(r.info)) THEN {} ELSE {"information"},
    IF r.ninfos = Len(m.conds) /\ Len(r.conds) = Len(m.conds) THEN {} ELSE {"conditions"},
    IF \A i \in 1..Len(m.conds) : i <= Len(r.conds) => SameCond(r.conds[i], o.ref.conds[m.conds[i]]) THEN {} ELSE {"condition-contents"},
    IF r.held[1] = r.held[2] /\ r.held[1] = (IF m.vol THEN Len(o.ref.el) ELSE 0) THEN {} ELSE {"elements-stay-valid"},
    IF r.time = << IF m.vol THEN 1 ELSE 0, IF m.conds # << >> THEN 1 ELSE 0, IF m.written THEN 1 ELSE 0, 1, 1 >> THEN {} ELSE {"times"},
    IF r.mono = 1 THEN {} ELSE {"times-accumulate"} }
RECURSIVE Fold(_, _, _, _, _)
Fold(s, o, m, k, bad) ==
    IF k > Len(s.ops) THEN bad
    ELSE LET op == s.ops[k]
             a == TLCEval(Step(m, op))
             r == o.r[k]
             b == IF r.st # a[2] THEN {"answer-of-" \o op.op}
                  ELSE IF op.op = "snap" THEN SnapClauses(s, o, a[1], r)
                  ELSE IF op.op = "files" THEN (IF Ran(r.files) = FileSet(a[1], s) THEN {} ELSE {"files"})
                  ELSE {}
         IN Fold(s, o, a[1], k + 1, bad \cup b)
S01Verdict(s, o) ==
    LET K == Len(s.conds)
        ref == Step(ModelInit(K, s.write), [op |-> "all"])[1]
    IN IF Len(o.r) # Len(s.ops) THEN {"answers"}
       ELSE Fold(s, o, ModelInit(K, s.write), 1, {}) \cup UNION {
            IF Len(o.ref.conds) = K /\ o.ref.ninfos = K THEN {} ELSE {"reference-conditions"},
            IF Ran(o.reffiles) = FileSet(ref, s) THEN {} ELSE {"reference-files"},
            IF o.ref.time = << 1, IF K > 0 THEN 1 ELSE 0, IF s.write THEN 1 ELSE 0, 1, 1 >> THEN {} ELSE {"reference-times"},
            IF o.unchanged = 1 THEN {} ELSE {"inputs-unchanged"} }
=============================================================================
