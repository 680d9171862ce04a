---------------------------- MODULE KratosViewGen ----------------------------
(* Programs of Depth operations on a model part, and what the sums of what was asked for have to be.                  *)
(* Shared: the way the interface stores forces (one value per node, applied by every condition on it) and penalties    *)
(* (one value per model part). It keeps the sums only if no node is loaded by two boxes and all penalties are equal:   *)
(* with Free = TRUE, the invariants do not hold (KratosViewShared.cfg).                                                *)
EXTENDS KratosView, TLC, Json, Randomization

CONSTANTS Depth, Shared, Free, NumMeshes, NumElems, MaxConds, Few
VARIABLES st, h, asked, nodal, times, pen
vars == << st, h, asked, nodal, times, pen >>

T1 == << << 0, 0, 0 >>, << 4, 0, 0 >>, << 0, 3, 0 >> >>
T2 == << << 1, 1, 1 >>, << 3, 1, 1 >>, << 1, 4, 5 >> >>
T0 == << << 1, 1, 1 >>, << 2, 2, 2 >>, << 3, 3, 3 >> >>
S == [nodes |-> << << 3, 1, 1, 1 >>, << 5, 3, 1, 1 >>, << 9, 1, 3, 1 >>, << 2, 3, 3, 3 >> >>,
      meshes |-> << << T1 >>, << T2, T0 >>, << T1, T2, T1 >>, << >> >>,
      elems |-> << << << << 1, 1, 1, 2 >>, << 2, 1, 1, 0 >> >>, << << 1, 2, 3, -1 >> >>, << >>, << << 1, 3, 3, 1 >> >> >>, << >> >>]
Boxes == { << << 0, 0, 0 >>, << 2, 2, 2 >> >>, << << 0, 0, 0 >>, << 3, 4, 4 >> >>, << << 2, 0, 0 >>, << 4, 2, 2 >> >>, << << 4, 4, 4 >>, << 6, 6, 6 >> >>, << << 0, 0, 0 >>, << 4, 4, 4 >> >>, << << 1, 1, 1 >>, << 4, 4, 4 >> >> }
Forces == { << 60, 0, -120 >>, << -60, 180, 0 >> }
Flags == { << 1, 0, 0 >>, << 0, 1, 1 >>, << 1, 1, 1 >>, << 0, 0, 0 >> }
Base == [t |-> "", seg |-> << >>, k |-> 0, d |-> KvZero, lo |-> KvZero, hi |-> KvZero, pen |-> 0]
Segs == { << m >> : m \in 1..NumMeshes } \cup { << 1, m >> : m \in 2..NumMeshes } \cup { << >> }
Bcs == { [Base EXCEPT !.t = "dirichlet", !.lo = b[1], !.hi = b[2], !.d = f] : b \in Boxes, f \in Flags }
       \cup { [Base EXCEPT !.t = "neumann", !.lo = b[1], !.hi = b[2], !.d = f] : b \in Boxes, f \in Forces }
       \cup { [Base EXCEPT !.t = "SurfaceLoadCondition", !.seg = q, !.k = k, !.d = d] : q \in Segs, k \in {15, -30}, d \in { << 0, 3, 4 >>, << -1, 0, 0 >>, << 1, 2, -2 >> } }
       \cup { [Base EXCEPT !.t = "PressureLoadCondition", !.seg = q, !.k = k] : q \in Segs, k \in {2, -5} }
       \cup { [Base EXCEPT !.t = "PenaltySupportCondition", !.seg = q, !.d = d, !.pen = p] : q \in Segs, d \in { KvZero, << 1, -2, 3 >> }, p \in (IF Free THEN {7, 8} ELSE {7}) }
       \cup { [Base EXCEPT !.t = "LagrangeSupportCondition", !.seg = q, !.d = d] : q \in Segs, d \in { KvZero, << 4, 0, 1 >> } }
Bad == { [Base EXCEPT !.t = t, !.seg = << 1 >>, !.k = 5] : t \in {"SurfaceLoadCondition", "NeumannCondition", ""} }

Loaded(n) == st.pf[n] # KvZero
NoOverlap(c) == Free \/ (\A n \in KvBoxNodes(S, c) : c.t = "neumann" => times[n] = 0)
Init == st = KvStart(S) /\ h = << >> /\ asked = KvZero /\ nodal = [n \in KvIds(S) |-> KvZero] /\ times = [n \in KvIds(S) |-> 0] /\ pen = 0
Put(op) == st' = KvStep(S, st, op)[1] /\ h' = Append(h, op)
Same == UNCHANGED << asked, nodal, times, pen >>
Elements == \E m \in 1..NumElems : st.el = << >> /\ Put([op |-> "elements", m |-> m, c |-> << >>]) /\ Same
Remove == \/ Put([op |-> "rme", m |-> 0, c |-> << >>]) /\ Same
          \/ Put([op |-> "rmc", m |-> 0, c |-> << >>]) /\ asked' = KvZero /\ times' = [n \in KvIds(S) |-> 0] /\ UNCHANGED << nodal, pen >>
\* one condition; two of them, of which at most one is a box with a force
One(c) == /\ NoOverlap(c)
          /\ asked' = IF c.t = "neumann" /\ KvBoxNodes(S, c) # {} THEN KvAdd(asked, c.d) ELSE asked
          /\ nodal' = IF c.t # "neumann" THEN nodal ELSE [n \in KvIds(S) |-> IF n \in KvBoxNodes(S, c) THEN KvForce(S, << c >>, n, 1) ELSE nodal[n]]
          /\ times' = IF c.t # "neumann" THEN times ELSE [n \in KvIds(S) |-> times[n] + (IF n \in KvBoxNodes(S, c) THEN 1 ELSE 0)]
          /\ pen' = IF c.t = "PenaltySupportCondition" THEN c.pen ELSE pen
\* for long programs: some of the conditions, drawn anew in every state
Some(q) == IF Few = 0 THEN q ELSE RandomSubset(Few, q)
Conds == \/ \E c \in Some(Bcs) : Put([op |-> "conds", m |-> 0, c |-> << c >>]) /\ One(c)
         \/ MaxConds > 1 /\ \E c \in Some(Bcs), d \in Some(Bcs) : (c.t # "neumann") /\ ~(c.t = "PenaltySupportCondition" /\ d.t # c.t) /\ Put([op |-> "conds", m |-> 0, c |-> << c, d >>]) /\ One(d)
Refuse == \/ \E b \in Bad : Put([op |-> "conds", m |-> 0, c |-> << b >>]) /\ Same
          \/ MaxConds > 1 /\ \E b \in Bad, c \in { x \in Some(Bcs) : x.seg = << 1 >> \/ x.t \in KvBoxes } : Put([op |-> "conds", m |-> 0, c |-> << c, b >>]) /\ Same
Next == Len(h) < Depth /\ (Elements \/ Remove \/ Conds \/ Refuse)
Spec == Init /\ [][Next]_vars
View == << st, Len(h), asked, nodal, times, pen >>

RECURSIVE SumOver(_, _)
SumOver(f, ns) == IF ns = {} THEN KvZero ELSE LET n == CHOOSE x \in ns : TRUE IN KvAdd(f[n], SumOver(f, ns \ {n}))
Applied == IF Shared THEN [n \in KvIds(S) |-> KvMul(times[n], nodal[n])] ELSE st.pf
\* the force that was asked for is in the model part, whatever number of nodes carries it
ForceKept == SumOver(Applied, KvIds(S)) = asked
PenaltyKept == \A k \in 1..Len(st.sup) : st.sup[k][1] = "PenaltySupportCondition" => (IF Shared THEN pen ELSE st.sup[k][3]) = st.sup[k][3]
\* supports stand on triangles with an area; elements have points, all with a positive weight
Supports == \A k \in 1..Len(st.sup) : KvNormal(st.sup[k][4]) # KvZero
Elems == \A k \in 1..Len(st.el) : st.el[k] # << >> /\ \A j \in 1..Len(st.el[k]) : st.el[k][j][4] > 0
\* nothing is released but by removal, and removing conditions does not release degrees of freedom
FixedStays == [][st.fx \subseteq st'.fx]_vars
RefusedKeeps == [][Len(h') > Len(h) => (KvStep(S, st, h'[Len(h')])[2] = -1 => st' = st)]_vars
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([ops |-> h]))
=============================================================================
