-------------------------------- MODULE TriBox --------------------------------
(* Exact triangle / open box intersection on integer coordinates by the separating axis theorem. *)
EXTENDS Integers, Sequences, Lattice
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
Sub(u, v) == << u[1] - v[1], u[2] - v[2], u[3] - v[3] >>
Max3(a, b, c) == MaxI(a, MaxI(b, c))
Min3(a, b, c) == MinI(a, MinI(b, c))
\* projections of the open box and the closed triangle on axis ax do not meet (coordinates relative to lo)
Separated(t, e, ax) ==
    LET d1 == Dot(t[1], ax)
        d2 == Dot(t[2], ax)
        d3 == Dot(t[3], ax)
        bl == MinI(0, ax[1]) * e[1] + MinI(0, ax[2]) * e[2] + MinI(0, ax[3]) * e[3]
        bh == MaxI(0, ax[1]) * e[1] + MaxI(0, ax[2]) * e[2] + MaxI(0, ax[3]) * e[3]
    IN ax # <<0, 0, 0>> /\ (Min3(d1, d2, d3) >= bh \/ Max3(d1, d2, d3) <= bl)
Unit == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
TriMeetsOpenBox(tri, lo, hi) ==
    LET t == << Sub(tri[1], lo), Sub(tri[2], lo), Sub(tri[3], lo) >>
        e == Sub(hi, lo)
        ed == << Sub(t[2], t[1]), Sub(t[3], t[2]), Sub(t[1], t[3]) >>
    IN /\ \A a \in Ax : ~Separated(t, e, Unit[a])
       /\ ~Separated(t, e, Cross(ed[1], ed[2]))
       /\ \A a \in Ax, k \in 1..3 : ~Separated(t, e, Cross(Unit[a], ed[k]))
=============================================================================
