------------------------------ MODULE PyMeshGen ------------------------------
(* Programs of Depth operations on a mesh and a list from Python.                                                    *)
EXTENDS PyMesh, FiniteSets, TLC, Json

CONSTANTS Depth, MaxV, MaxT, MaxL, Coord
VARIABLES st, h
vars == << st, h >>
Init == st = PmEmpty /\ h = << >>
Flat(a, b, c) == LET q == PmShow(PmTri([st EXCEPT !.t = << << a, b, c >> >>], 1)) IN q[13] = 0
Do(o, a) == LET op == [op |-> o, a |-> a] IN st' = PmStep(st, op)[1] /\ h' = Append(h, op)
Mesh == \/ Len(st.v) < MaxV /\ \E x, y, z \in Coord : Do("addv", << x, y, z >>)
        \/ Len(st.t) < MaxT /\ \E a, b, c \in 0..(Len(st.v) - 1) : ~Flat(a, b, c) /\ Do("addt", << a, b, c >>)
        \/ \E k \in 1..3, x \in {-1, Len(st.v), Len(st.v) + 7} : Do("addt", IF k = 1 THEN << x, 0, 0 >> ELSE IF k = 2 THEN << 0, x, 0 >> ELSE << 0, 0, x >>)
        \/ \E o \in {"num", "vol", "vert", "tri", "drop"} : Do(o, << 0 >>)
        \/ st.vi >= 0 /\ Do("vnext", << 0 >>)
        \/ st.ti >= 0 /\ Do("tnext", << 0 >>)
        \/ st.held # << >> /\ (Do("held", << 0 >>) \/ \E m \in {0, 1, 2, 3, 4, 5, -1} : Do("ips", << m >>))
List == \/ Len(st.l) < MaxL /\ \E x \in 1..3 : Do("append", << x >>) \/ (\E i \in (0 - Len(st.l) - 1)..(Len(st.l) + 1) : Do("insert", << i, x >>))
        \/ Len(st.l) + 2 <= MaxL /\ Do("extend", << 2, 1 >>)
        \/ \E o \in {"len", "all", "clear"} : Do(o, << 0 >>)
        \/ \E o \in {"get", "pop", "del"}, i \in (0 - Len(st.l) - 2)..(Len(st.l) + 2) : Do(o, << i >>)
        \/ \E i \in (0 - Len(st.l) - 1)..(Len(st.l) + 1), x \in 1..3 : Do("set", << i, x >>)
Next == Len(h) < Depth /\ (Mesh \/ List)
Spec == Init /\ [][Next]_vars
View == << st, Len(h) >>
\* triangles refer to vertices that exist; what is held does not change under growth
InRange == \A k \in 1..Len(st.t) : \A j \in 1..3 : PmInRange(st, st.t[k][j])
HeldStays == [][(\A k \in 1..Len(h) : TRUE) /\ (Len(h') > 0 /\ h'[Len(h')].op # "tnext") => st'.held = st.held]_vars
\* raising an exception changes nothing
RaiseKeeps == [][Len(h') > Len(h) => (PmStep(st, h'[Len(h')])[2] = PmRaise => st' = st)]_vars
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([ops |-> h]))
=============================================================================
