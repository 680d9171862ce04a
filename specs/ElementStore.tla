------------------------------ MODULE ElementStore ------------------------------
(* The store of elements of a background grid as a state machine. One operator, Apply, gives for a state and an
   operation the next state and the answer; the design model explores it, the trace specification folds recorded
   histories over it. Kinds: 1 untrimmed, 2 trimmed. Filters: 0 all, 1 untrimmed, 2 trimmed. Refused: << -1 >>.
   st.e is the set of << id, kind >>, st.lk is whether the store is locked, st.n the grid. *)
EXTENDS GridSweep

StoreInit(n) == [ n |-> n, e |-> {}, lk |-> FALSE ]
Refused == << -1 >>
KindOf(st, id) == IF \E x \in st.e : x[1] = id THEN (CHOOSE x \in st.e : x[1] = id)[2] ELSE 0
Match(k, f) == IF k = 0 THEN 0 ELSE IF f \in {0, k} THEN k ELSE 0
\* the answer of a lookup: kind, id (0 0 if there is nothing)
Found(st, id, f) == LET k == Match(KindOf(st, id), f) IN << k, IF k = 0 THEN 0 ELSE id >>
SId(n, c) == 1 + c[1] + n[1] * (c[2] + n[2] * c[3])
SCell(n, id) == << (id - 1) % n[1], ((id - 1) \div n[1]) % n[2], (id - 1) \div (n[1] * n[2]) >>
\* directions 1..6: x+ x- y+ y- z+ z-
SNext(n, id, d) ==
    LET hi == << n[1] - 1, n[2] - 1, n[3] - 1 >>
        r == StepOf(SCell(n, id), << 0, 0, 0 >>, hi, (d + 1) \div 2, d % 2 = 1)
    IN << SId(n, r[1]), r[2] >>
SIsEnd(n, id, d) == LET hi == << n[1] - 1, n[2] - 1, n[3] - 1 >>
                    IN LineEnd(SCell(n, id), << 0, 0, 0 >>, hi, (d + 1) \div 2, d % 2 = 1)
Bit(b) == IF b THEN 1 ELSE 0
\* answers: "get"/"pget" kind id; "next"/"pnext" kind id nextid isend; "list" the ids times ten plus kind in any order
Apply(st, op) ==
    CASE op.op = "make" ->
            IF st.lk THEN << st, Refused >>
            ELSE IF op.b = 0 THEN << st, << 0 >> >>
            ELSE IF KindOf(st, op.id) # 0 THEN << st, Refused >>
            ELSE << [st EXCEPT !.e = @ \cup { << op.id, op.k >> }], << 1 >> >>
      [] op.op = "lock" -> << [st EXCEPT !.lk = TRUE], << 0 >> >>
      [] op.op \in {"reserve", "move"} -> << st, << 0 >> >>
      [] op.op \in {"get", "pget"} -> << st, IF st.lk THEN Found(st, op.id, op.f) ELSE Refused >>
      [] op.op \in {"next", "pnext"} ->
            << st, IF ~st.lk THEN Refused
                   ELSE LET x == SNext(st.n, op.id, op.d)
                            y == Found(st, x[1], op.f)
                        IN y \o << x[1], Bit(x[2] # 0 \/ y[1] = 0) >> >>
      [] op.op = "isend" -> << st, << Bit(SIsEnd(st.n, op.id, op.d)) >> >>
      [] op.op = "count" -> << st, << Cardinality(st.e), Cardinality({ x \in st.e : x[2] = 1 }), Cardinality({ x \in st.e : x[2] = 2 }) >> >>
      [] op.op = "list" -> << st, { 10 * x[1] + x[2] : x \in { y \in st.e : op.f \in {0, y[2]} } } >>
=============================================================================
