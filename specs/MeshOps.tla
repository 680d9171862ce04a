------------------------------- MODULE MeshOps -------------------------------
(* Triangle meshes as sequences of oriented triangles << p1, p2, p3 >> (integer points), and the operations on them.
   A state is [m: meshes of the registers, w: registers whose mesh is known to be watertight by vertex indices]. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Ax == 1..3
AbsV(x) == IF x < 0 THEN -x ELSE x
Cross(t) == LET u == [a \in Ax |-> t[2][a] - t[1][a]]
                v == [a \in Ax |-> t[3][a] - t[1][a]]
            IN << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
N2(t) == LET n == Cross(t) IN n[1] * n[1] + n[2] * n[2] + n[3] * n[3]
Det(t) == LET n == Cross(t) IN t[1][1] * n[1] + t[1][2] * n[2] + t[1][3] * n[3]     \* 6 * signed volume to the origin
RECURSIVE SumOver(_, _, _)
\* what = 0: Det; 1..3: component of the area vector; 4..6: directional volume (times 6)
Term(t, what) == IF what = 0 THEN Det(t) ELSE IF what <= 3 THEN Cross(t)[what]
                 ELSE (t[1][what - 3] + t[2][what - 3] + t[3][what - 3]) * Cross(t)[what - 3]
SumOver(m, k, what) == IF k > Len(m) THEN 0 ELSE Term(m[k], what) + SumOver(m, k + 1, what)
Vol6(m) == SumOver(m, 1, 0)
AreaVec2(m) == << SumOver(m, 1, 1), SumOver(m, 1, 2), SumOver(m, 1, 3) >>
VolDir6(m, a) == SumOver(m, 1, 3 + a)
Lo(m, a) == Min({ m[k][j][a] : k \in 1..Len(m), j \in 1..3 })
Hi(m, a) == Max({ m[k][j][a] : k \in 1..Len(m), j \in 1..3 })
\* a rotation of the vertices is the same triangle
Rot(t) == { << t[1], t[2], t[3] >>, << t[2], t[3], t[1] >>, << t[3], t[1], t[2] >> }
\* closed as a surface: the area vector vanishes and the volume does not depend on the direction or the origin
Closed(m) == /\ AreaVec2(m) = << 0, 0, 0 >>
             /\ \A a \in Ax : VolDir6(m, a) = Vol6(m)

-----------------------------------------------------------------------------
(* Boxes: some triangulation of the six faces *)
OnFace(t, a, c) == \A j \in 1..3 : t[j][a] = c
IsBoxMesh(m, lo, hi) ==
    /\ Len(m) = 12
    /\ \A k \in 1..12 : \A j \in 1..3 : \A a \in Ax : m[k][j][a] \in {lo[a], hi[a]}
    /\ \A a \in Ax : \A c \in {lo[a], hi[a]} :
         LET F == { k \in 1..12 : OnFace(m[k], a, c) }
         IN /\ Cardinality(F) = 2
            /\ \A k \in F : Cross(m[k])[a] * (IF c = hi[a] THEN 1 ELSE -1) > 0
            /\ Cardinality({ Rot(m[k]) : k \in F }) = 2
            \* two different halves: together they show each corner of the face, two of them twice
            /\ Cardinality(UNION { { m[k][1], m[k][2], m[k][3] } : k \in F }) = 4
            /\ MapThenSumSet(LAMBDA k : AbsV(Cross(m[k])[a]), F) = 2 * ((hi[(a % 3) + 1] - lo[(a % 3) + 1]) * (hi[((a + 1) % 3) + 1] - lo[((a + 1) % 3) + 1]))
    /\ Closed(m)
BoxTri(lo, hi, i) == LET c == << << lo[1], lo[2], lo[3] >>, << hi[1], lo[2], lo[3] >>, << lo[1], hi[2], lo[3] >>, << hi[1], hi[2], lo[3] >>,
                                << lo[1], lo[2], hi[3] >>, << hi[1], lo[2], hi[3] >>, << lo[1], hi[2], hi[3] >>, << hi[1], hi[2], hi[3] >> >>
                         f == << << 1, 7, 3 >>, << 1, 5, 7 >>, << 2, 8, 6 >>, << 2, 4, 8 >>, << 5, 2, 6 >>, << 5, 1, 2 >>,
                                 << 7, 8, 4 >>, << 7, 4, 3 >>, << 2, 1, 4 >>, << 1, 3, 4 >>, << 5, 6, 8 >>, << 5, 8, 7 >> >>
                     IN << c[f[i][1]], c[f[i][2]], c[f[i][3]] >>
BoxMesh(lo, hi) == [i \in 1..12 |-> BoxTri(lo, hi, i)]

-----------------------------------------------------------------------------
(* Refinement: as long as there are too few triangles, all triangles of (nearly) the largest area are cut into four.
   A block is the set of the descendants of one triangle. *)
Mid(p, q) == [a \in Ax |-> (p[a] + q[a]) \div 2]
Fits(p, q) == \A a \in Ax : (p[a] + q[a]) % 2 = 0
Four(t) == LET a == Mid(t[1], t[2])
               b == Mid(t[2], t[3])
               c == Mid(t[3], t[1])
           IN { << t[1], a, c >>, << a, t[2], b >>, << b, t[3], c >>, << a, b, c >> }
FitsAll(B) == \A t \in B : Fits(t[1], t[2]) /\ Fits(t[2], t[3]) /\ Fits(t[3], t[1])
Rep(B) == CHOOSE t \in B : TRUE
Big(bl) == Max({ N2(Rep(bl[k])) : k \in 1..Len(bl) })
Count(bl) == FoldSet(LAMBDA k, x : x + Cardinality(bl[k]), 0, 1..Len(bl))
RECURSIVE RefineRounds(_, _, _)
\* << blocks, exact, uniform >>: uniform if every round cuts every triangle; not exact if a coordinate is no integer any more or the choice of a triangle is a tie
RefineRounds(bl, mn, u) ==
    IF Len(bl) = 0 \/ Count(bl) >= mn THEN << bl, TRUE, u >>
    ELSE LET g == Big(bl)
         IN IF g = 0 THEN << bl, TRUE, u >>
            ELSE LET ns == [k \in 1..Len(bl) |-> N2(Rep(bl[k]))]
                     cut == { k \in 1..Len(bl) : 100 * ns[k] > 81 * g }
                 IN IF (\E k \in 1..Len(bl) : 100 * ns[k] = 81 * g) \/ (\E k \in cut : ~FitsAll(bl[k])) THEN << bl, FALSE, FALSE >>
                    ELSE RefineRounds([k \in 1..Len(bl) |-> IF k \in cut THEN UNION { Four(t) : t \in bl[k] } ELSE bl[k]], mn, u /\ cut = 1..Len(bl))
RefineBlocks(bl, mn) == RefineRounds(bl, mn, TRUE)
Blocks(m) == [k \in 1..Len(m) |-> { m[k] }]
RECURSIVE BlocksMatch(_, _, _, _)
\* the triangles of m from position i on are, block by block, the triangles of bl, in any order inside a block
BlocksMatch(m, i, bl, k) ==
    IF k > Len(bl) THEN i = Len(m) + 1
    ELSE LET c == Cardinality(bl[k])
         IN /\ i + c - 1 <= Len(m)
            /\ { Rot(m[j]) : j \in i..(i + c - 1) } = { Rot(t) : t \in bl[k] }
            /\ BlocksMatch(m, i + c, bl, k + 1)
SameMesh(m1, m2) == Len(m1) = Len(m2) /\ \A k \in 1..Len(m1) : m1[k] \in Rot(m2[k])
Drop(m, t) == [k \in 1..(Len(m) - 1) |-> IF k = t THEN m[Len(m)] ELSE m[k]]

-----------------------------------------------------------------------------
(* One operation in state st, with the mesh new as the new value of its register: is it allowed? *)
Allowed(st, op, new) ==
    LET a == st.m[op.r]
    IN CASE op.op = "box" -> IsBoxMesh(new, op.lo, op.hi)
         [] op.op = "tri" -> SameMesh(new, Append(a, op.p))
         [] op.op = "append" -> SameMesh(new, a \o st.m[op.b])
         [] op.op = "refine" -> LET x == RefineBlocks(Blocks(a), op.mn) IN x[2] => BlocksMatch(new, 1, x[1], 1)
         [] op.op = "remove" -> SameMesh(new, Drop(a, op.t))
         [] op.op = "clear" -> new = << >>
         [] op.op = "copy" -> SameMesh(new, st.m[op.b])
         [] OTHER -> SameMesh(new, a)
\* is the result known to be watertight by indices?
Tight(st, op) ==
    CASE op.op = "box" -> TRUE
      [] op.op = "append" -> st.w[op.r] /\ st.w[op.b]
      [] op.op = "copy" -> st.w[op.b]
      [] op.op = "clear" -> TRUE
      [] op.op = "refine" -> st.w[op.r] /\ (LET x == RefineBlocks(Blocks(st.m[op.r]), op.mn)
                                            IN x[3])
      [] op.op \in {"tri", "remove"} -> FALSE
      [] OTHER -> st.w[op.r]
MeshInit(R) == [m |-> [r \in 1..R |-> << >>], w |-> [r \in 1..R |-> TRUE]]
Become(st, op, new) == [m |-> [st.m EXCEPT ![op.r] = new], w |-> [st.w EXCEPT ![op.r] = Tight(st, op)]]
=============================================================================
