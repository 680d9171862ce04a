------------------------------ MODULE KratosView ------------------------------
(* The model part that the finite element code works on, as the interface to it fills it. Coordinates are integers:   *)
(* lattice units of the background grid, whether they are handed over as physical or as local coordinates.            *)
(* A setting s has nodes (sequence of << id, x, y, z >>), meshes (sequence of sequences of triangles << p1, p2, p3 >>) *)
(* and elems (sequence of lists of elements; an element is a sequence of points << x, y, z, w >>).                    *)
EXTENDS Integers, Sequences, FiniteSets

K3 == 1..3
KvSub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
KvAdd(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
KvMul(k, a) == << k * a[1], k * a[2], k * a[3] >>
KvCross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
KvDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
KvZero == << 0, 0, 0 >>
\* square root of a square number
KvRoot(n) == CHOOSE r \in 0..n : r * r = n /\ r <= 2000
KvNormal(t) == KvCross(KvSub(t[2], t[1]), KvSub(t[3], t[1]))      \* twice the area times the unit normal
KvArea2(t) == KvRoot(KvDot(KvNormal(t), KvNormal(t)))
KvCentre3(t) == KvAdd(t[1], KvAdd(t[2], t[3]))
KvInside(p, lo, hi) == \A i \in K3 : lo[i] < p[i] /\ p[i] < hi[i]
KvTensor(a, b) == << KvMul(a[1], b), KvMul(a[2], b), KvMul(a[3], b) >>
KvTAdd(a, b) == << KvAdd(a[1], b[1]), KvAdd(a[2], b[2]), KvAdd(a[3], b[3]) >>
KvTZero == << KvZero, KvZero, KvZero >>
RECURSIVE KvFlat(_)
KvFlat(q) == IF q = << >> THEN << >> ELSE Head(q) \o KvFlat(Tail(q))

\* What loads amount to: area (x2), force (x2), first moments of the force (x6), second moments of the area (x24)
KvNoLoad == [a |-> 0, f |-> KvZero, m |-> KvTZero, s |-> KvTZero]
KvLoadSum(x, y) == [a |-> x.a + y.a, f |-> KvAdd(x.f, y.f), m |-> KvTAdd(x.m, y.m), s |-> KvTAdd(x.s, y.s)]
KvTriLoad(c, t) ==
    LET ar == KvArea2(t)
        ce == KvCentre3(t)
        f == IF c.t = "PressureLoadCondition" THEN KvMul(-c.k, KvNormal(t)) ELSE KvMul((c.k \div KvRoot(KvDot(c.d, c.d))) * ar, c.d)
        pp == KvTAdd(KvTensor(t[1], t[1]), KvTAdd(KvTensor(t[2], t[2]), KvTensor(t[3], t[3])))
    IN [a |-> ar, f |-> f, m |-> KvTensor(f, ce),
        s |-> << KvMul(ar, KvTAdd(KvTensor(ce, ce), pp)[1]), KvMul(ar, KvTAdd(KvTensor(ce, ce), pp)[2]), KvMul(ar, KvTAdd(KvTensor(ce, ce), pp)[3]) >>]
RECURSIVE KvTrisLoad(_, _, _)
KvTrisLoad(c, ts, k) == IF k > Len(ts) THEN KvNoLoad ELSE KvLoadSum(KvTriLoad(c, ts[k]), KvTrisLoad(c, ts, k + 1))

KvLoads == {"SurfaceLoadCondition", "PressureLoadCondition"}
KvSupports == {"PenaltySupportCondition", "LagrangeSupportCondition"}
KvBoxes == {"dirichlet", "neumann"}
KvTris(s, c) == KvFlat([k \in 1..Len(c.seg) |-> s.meshes[c.seg[k]]])
KvRefused(c) == c.t \notin KvLoads \cup KvSupports \cup KvBoxes \/ (c.t = "SurfaceLoadCondition" /\ c.d = KvZero)
\* ids of the nodes in a box
KvBoxNodes(s, c) == { s.nodes[k][1] : k \in { j \in 1..Len(s.nodes) : KvInside(SubSeq(s.nodes[j], 2, 4), c.lo, c.hi) } }

RECURSIVE KvLoadOf(_, _, _)
KvLoadOf(s, cs, k) == IF k > Len(cs) THEN KvNoLoad
                      ELSE KvLoadSum(IF cs[k].t \in KvLoads THEN KvTrisLoad(cs[k], KvTris(s, cs[k]), 1) ELSE KvNoLoad, KvLoadOf(s, cs, k + 1))
\* supports: one condition for each triangle that has an area: << kind, prescribed value, penalty, corners >>
KvSupportOf(s, c) == LET real == SelectSeq(KvTris(s, c), LAMBDA t : KvNormal(t) # KvZero)
                     IN [k \in 1..Len(real) |-> << c.t, c.d, IF c.t = "PenaltySupportCondition" THEN c.pen ELSE 0, real[k] >>]
KvSupportsOf(s, cs) == KvFlat([k \in 1..Len(cs) |-> IF cs[k].t \in KvSupports THEN KvSupportOf(s, cs[k]) ELSE << >>])
KvFixOf(s, cs) == UNION { IF cs[k].t = "dirichlet" THEN { << n, i >> : n \in KvBoxNodes(s, cs[k]), i \in { j \in K3 : cs[k].d[j] # 0 } } ELSE {} : k \in 1..Len(cs) }
\* force on a node, from every box it is in
RECURSIVE KvForce(_, _, _, _)
KvForce(s, cs, n, k) ==
    IF k > Len(cs) THEN KvZero
    ELSE LET b == KvBoxNodes(s, cs[k])
             num == Cardinality(b)
         IN KvAdd(IF cs[k].t = "neumann" /\ n \in b THEN << cs[k].d[1] \div num, cs[k].d[2] \div num, cs[k].d[3] \div num >> ELSE KvZero, KvForce(s, cs, n, k + 1))
KvIds(s) == { s.nodes[k][1] : k \in 1..Len(s.nodes) }
KvNewElements(q) == LET keep(e) == SelectSeq(e, LAMBDA p : p[4] > 0)
                    IN SelectSeq([k \in 1..Len(q) |-> keep(q[k])], LAMBDA e : e # << >>)

\* State: el = elements (their points), fx = fixed degrees of freedom, pf = force on each node, cn = supports and loads that are in the model part
KvStart(s) == [el |-> << >>, fx |-> {}, pf |-> [n \in KvIds(s) |-> KvZero], sup |-> << >>, ld |-> KvNoLoad]
\* Answer: 0, or -1 if the call is refused, which changes nothing
KvStep(s, st, op) ==
    CASE op.op = "elements" -> << [st EXCEPT !.el = KvNewElements(s.elems[op.m])], 0 >>
      [] op.op = "conds" ->
            IF \E k \in 1..Len(op.c) : KvRefused(op.c[k]) THEN << st, -1 >>
            ELSE << [st EXCEPT !.fx = @ \cup KvFixOf(s, op.c),
                               !.pf = [n \in KvIds(s) |-> KvAdd(@[n], KvForce(s, op.c, n, 1))],
                               !.sup = @ \o KvSupportsOf(s, op.c),
                               !.ld = KvLoadSum(@, KvLoadOf(s, op.c, 1))], 0 >>
      [] op.op = "rme" -> << [st EXCEPT !.el = << >>], 0 >>
      \* the fixed degrees of freedom are no conditions
      [] op.op = "rmc" -> << [st EXCEPT !.pf = [n \in KvIds(s) |-> KvZero], !.sup = << >>, !.ld = KvNoLoad], 0 >>
=============================================================================
