-------------------------------- MODULE PyMesh --------------------------------
(* A mesh and a list of points built up from Python. The mesh: vertices (integer coordinates) and triangles (vertex  *)
(* numbers from 0), at most one iterator over each, and one triangle held. The list: a Python list of item numbers.  *)
(* Answers are sequences of integers; << -1 >> is any exception, << -3 >> the end of an iteration.                   *)
EXTENDS Integers, Sequences

PmEmpty == [v |-> << >>, t |-> << >>, vi |-> -1, ti |-> -1, held |-> << >>, l |-> << >>]
PmRaise == << -1 >>
PmStop == << -3 >>
PmInRange(st, i) == 0 <= i /\ i < Len(st.v)
PmCross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
PmDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
PmSub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
PmTri(st, k) == << st.v[st.t[k][1] + 1], st.v[st.t[k][2] + 1], st.v[st.t[k][3] + 1] >>
\* corners, three times the centre, four times the square of the area
PmShow(p) == LET n == PmCross(PmSub(p[2], p[1]), PmSub(p[3], p[1])) IN
           p[1] \o p[2] \o p[3] \o << p[1][1] + p[2][1] + p[3][1], p[1][2] + p[2][2] + p[3][2], p[1][3] + p[2][3] + p[3][3], PmDot(n, n) >>
RECURSIVE PmVol(_, _)
PmVol(st, k) == IF k = 0 THEN 0 ELSE LET p == PmTri(st, k) IN PmDot(p[1], PmCross(p[2], p[3])) + PmVol(st, k - 1)
PmAbs(x) == IF x < 0 THEN -x ELSE x
\* Python's meaning of an index into a list of n items, 0 if there is none; and of a place to insert
PmAt(n, i) == IF 0 <= i /\ i < n THEN i + 1 ELSE IF -n <= i /\ i < 0 THEN n + i + 1 ELSE 0
PmPut(q, i, x) == SubSeq(q, 1, i - 1) \o << x >> \o SubSeq(q, i, Len(q))
PmDel(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

PmStep(st, op) ==
    LET o == op.op i == PmAt(Len(st.l), op.a[1]) IN
    CASE o = "addv" -> << [st EXCEPT !.v = Append(@, op.a)], << Len(st.v) >> >>
      [] o = "addt" -> IF \A k \in 1..3 : PmInRange(st, op.a[k]) THEN << [st EXCEPT !.t = Append(@, op.a)], << 0 >> >> ELSE << st, PmRaise >>
      [] o = "num" -> << st, << Len(st.v), Len(st.t) >> >>
      [] o = "vol" -> << st, << PmAbs(PmVol(st, Len(st.t))) >> >>
      [] o = "vert" -> << [st EXCEPT !.vi = 0], << 0 >> >>
      [] o = "tri" -> << [st EXCEPT !.ti = 0], << 0 >> >>
      [] o = "vnext" -> IF st.vi < Len(st.v) THEN << [st EXCEPT !.vi = @ + 1], st.v[st.vi + 1] >> ELSE << [st EXCEPT !.vi = -1], PmStop >>
      [] o = "tnext" -> IF st.ti < Len(st.t) THEN << [st EXCEPT !.ti = @ + 1, !.held = PmTri(st, st.ti + 1)], PmShow(PmTri(st, st.ti + 1)) >>
                        ELSE << [st EXCEPT !.ti = -1], PmStop >>
      [] o = "held" -> << st, PmShow(st.held) >>
      [] o = "ips" -> << st, IF op.a[1] \in 0..4 THEN << << 1, 3, 6, 12, 12 >>[op.a[1] + 1] >> ELSE PmRaise >>
      [] o = "drop" -> << [st EXCEPT !.v = << >>, !.t = << >>, !.vi = -1, !.ti = -1], << 0 >> >>
      \* the list
      [] o = "append" -> << [st EXCEPT !.l = Append(@, op.a[1])], << 0 >> >>
      [] o = "len" -> << st, << Len(st.l) >> >>
      [] o = "all" -> << st, st.l >>
      [] o = "get" -> << st, IF i = 0 THEN PmRaise ELSE << st.l[i] >> >>
      [] o = "set" -> IF i = 0 THEN << st, PmRaise >> ELSE << [st EXCEPT !.l[i] = op.a[2]], << 0 >> >>
      [] o = "pop" -> IF i = 0 THEN << st, PmRaise >> ELSE << [st EXCEPT !.l = PmDel(@, i)], << st.l[i] >> >>
      [] o = "del" -> IF i = 0 THEN << st, PmRaise >> ELSE << [st EXCEPT !.l = PmDel(@, i)], << 0 >> >>
      [] o = "insert" -> IF op.a[1] = Len(st.l) \/ i # 0
                         THEN << [st EXCEPT !.l = PmPut(@, IF i = 0 THEN Len(st.l) + 1 ELSE i, op.a[2])], << 0 >> >> ELSE << st, PmRaise >>
      [] o = "clear" -> << [st EXCEPT !.l = << >>], << 0 >> >>
      [] o = "extend" -> << [st EXCEPT !.l = @ \o op.a], << 0 >> >>
=============================================================================
