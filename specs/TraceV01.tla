------------------------------- MODULE TraceV01 -------------------------------
(* V01: the spline volume of a grid, in units of cells (control points: of cells divided by the order).              *)
EXTENDS SplineVol, TraceCore

Open(s) == s.knots = "open_knot_vector"
Dirs == 1..3
V01Verdict(s, o) ==
    LET K(d) == Knots(s.n[d], s.p[d], Open(s))
        C == TLCEval([d \in Dirs |-> Cps(s.n[d], s.p[d], Open(s))])
        N(d) == NumCps(s.n[d], s.p[d])
    IN UNION {
        IF o.far = 0 THEN {} ELSE {"values"},
        IF o.accepted = 0 THEN {} ELSE {"wrong-argument-accepted"},
        IF o.order = s.p /\ o.sk = s.p THEN {} ELSE {"order"},
        IF \A d \in Dirs : o.t[d] = K(d) /\ o.gt[d] = K(d) THEN {} ELSE {"knots"},
        IF \A d \in Dirs : o.num[d] = N(d) /\ o.shape[d] = N(d) THEN {} ELSE {"number-of-points"},
        IF \A d \in Dirs : o.sc[d] = C[d] THEN {} ELSE {"control-points"},
        IF o.len = N(1) * N(2) * N(3) THEN {} ELSE {"number-in-list"},
        IF \A i \in 1..Len(o.pts) : LET q == o.pts[i][1] IN
              Tail(o.pts[i]) = << C[1][1 + (q % N(1))], C[2][1 + ((q \div N(1)) % N(2))], C[3][1 + (q \div (N(1) * N(2)))] >>
           THEN {} ELSE {"list-order"},
        IF \A i \in 1..Len(o.mat) : LET q == o.mat[i] IN
              << q[4], q[5], q[6] >> = << C[1][1 + q[1]], C[2][1 + q[2]], C[3][1 + q[3]] >> THEN {} ELSE {"matrix"},
        \* the map is the identity
        IF \A i \in 1..Len(o.curve) : o.curve[i][2] = o.curve[i][3] THEN {} ELSE {"curve"},
        IF \A i \in 1..Len(o.vol) : SubSeq(o.vol[i], 1, 3) = SubSeq(o.vol[i], 4, 6) THEN {} ELSE {"volume"} }
=============================================================================
