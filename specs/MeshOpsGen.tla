------------------------------ MODULE MeshOpsGen ------------------------------
(* Histories of mesh operations: laws checked exhaustively, histories sampled for replay into the library. *)
EXTENDS MeshOps, TLC, Json
CONSTANTS Boxes, Tris, Mins, Depth, R, MaxTri, Sample
Pick(S) == IF Sample THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
SmallBoxes == { << << 0, 0, 0 >>, << 8, 8, 16 >> >>, << << -8, 0, 8 >>, << 8, 16, 16 >> >> }
SmallTris == { << << 0, 0, 0 >>, << 16, 0, 0 >>, << 0, 16, 8 >> >> }
C8 == { -16, -8, 0, 8, 16 }
L8 == { 8, 16, 24 }
SimBoxes == { << << 0, 0, 0 >>, << x, y, z >> >> : x \in L8, y \in L8, z \in L8 }
            \cup { << << x, y, z >>, << x + u, y + 8, z + 16 >> >> : x \in C8, y \in C8, z \in {-8, 0}, u \in {8, 16} }
SimTris == { << << x, 0, z >>, << 8, y, 8 >>, << u, 16, -8 >> >> : x \in C8, y \in C8, z \in C8, u \in C8 }
SimTris2 == { t \in SimTris : N2(t) > 0 } \cup { << << 0, 0, 0 >>, << 8, 8, 8 >>, << 16, 16, 16 >> >> }
VARIABLES st, h
vars == << st, h >>

\* a deterministic implementation
RECURSIVE Flat(_)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o SeqOf(S \ {x})
Flat(bl) == IF bl = << >> THEN << >> ELSE SeqOf(Head(bl)) \o Flat(Tail(bl))
Do(op, new) == /\ Len(h) < Depth
               /\ st' = TLCEval(Become(st, op, new)) /\ h' = Append(h, op)
Init == st = MeshInit(R) /\ h = << >>
Box == \E r \in 1..R : \E b \in Pick(Boxes) : Do([op |-> "box", r |-> r, lo |-> b[1], hi |-> b[2]], BoxMesh(b[1], b[2]))
Tri == \E r \in 1..R : \E t \in Pick(Tris) : Len(st.m[r]) < MaxTri /\ Do([op |-> "tri", r |-> r, p |-> t], Append(st.m[r], t))
App == \E r \in 1..R, b \in 1..R : Len(st.m[r]) + Len(st.m[b]) <= MaxTri /\ Do([op |-> "append", r |-> r, b |-> b], st.m[r] \o st.m[b])
Self == \E r \in 1..R : 2 * Len(st.m[r]) <= MaxTri /\ Do([op |-> "append", r |-> r, b |-> r], st.m[r] \o st.m[r])
Ref == \E r \in 1..R : \E mn \in Pick(Mins) :
          LET x == TLCEval(RefineBlocks(Blocks(st.m[r]), mn))
          IN /\ x[2] /\ Count(x[1]) <= 3 * MaxTri
             /\ Do([op |-> "refine", r |-> r, mn |-> mn], Flat(x[1]))
Rem == \E r \in 1..R : \E t \in Pick(1..Len(st.m[r])) : Do([op |-> "remove", r |-> r, t |-> t], Drop(st.m[r], t))
Clr == \E r \in 1..R : st.m[r] # << >> /\ Do([op |-> "clear", r |-> r], << >>)
Cpy == \E r \in 1..R, b \in 1..R : r # b /\ Do([op |-> "copy", r |-> r, b |-> b], st.m[b])
Res == Sample /\ \E r \in 1..R : Do([op |-> "reserve", r |-> r], st.m[r])
Look == Sample /\ \E r \in 1..R : Do([op |-> "look", r |-> r], st.m[r])
Next == Box \/ Tri \/ App \/ Self \/ Ref \/ Rem \/ Clr \/ Cpy \/ Res \/ Look \/ (Sample /\ (Ref \/ App \/ Look))
Spec == Init /\ [][Next]_vars
View == st
\* laws
RuleHolds == [][Allowed(st, h'[Len(h')], st'.m[h'[Len(h')].r])]_vars
TightIsClosed == \A r \in 1..R : st.w[r] => Closed(st.m[r])
BoxVolumes == [][h'[Len(h')].op = "box" => LET o == h'[Len(h')] IN
                 Vol6(st'.m[o.r]) = 6 * (o.hi[1] - o.lo[1]) * (o.hi[2] - o.lo[2]) * (o.hi[3] - o.lo[3])]_vars
AppendAdds == [][h'[Len(h')].op = "append" => LET o == h'[Len(h')] IN
                 /\ Vol6(st'.m[o.r]) = Vol6(st.m[o.r]) + Vol6(st.m[o.b])
                 /\ SubSeq(st'.m[o.r], 1, Len(st.m[o.r])) = st.m[o.r]]_vars
RefineKeeps == [][h'[Len(h')].op = "refine" => LET o == h'[Len(h')]
                                                  a == st.m[o.r]
                                                  b == st'.m[o.r] IN
                 /\ Vol6(a) = Vol6(b) /\ AreaVec2(a) = AreaVec2(b) /\ \A d \in Ax : VolDir6(a, d) = VolDir6(b, d)
                 /\ (a # << >> => \A d \in Ax : Lo(a, d) = Lo(b, d) /\ Hi(a, d) = Hi(b, d))
                 /\ (a # << >> => Len(b) >= o.mn \/ Big(Blocks(a)) = 0)]_vars
OthersUntouched == [][\A r \in 1..R : r # h'[Len(h')].r => st'.m[r] = st.m[r]]_vars
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([ops |-> h]))
=============================================================================
