------------------------------- MODULE TraceG01 -------------------------------
(* G01: indexing, cell bounds, traversal and mappings of the grid. *)
EXTENDS GridSweep, TraceCore, FiniteSetsExt

Cell(n, i) == << i % n[1], (i \div n[1]) % n[2], i \div (n[1] * n[2]) >>
Near3(a, b) == \A k \in SAx : a[k] - b[k] \in -1..1
WalkClauses(n, p, w) ==
    LET P == PCells(p[1], p[2])
        D == { << x.c, x.d >> : x \in { w[k] : k \in 1..Len(w) } }
        Tab(d) == [c \in P |-> LET x == CHOOSE y \in { w[k] : k \in 1..Len(w) } : Cell(n, y.c) = c
                               IN << Cell(n, x.d[d][1]), x.d[d][2], x.d[d][3] >>]
        T == TLCEval([d \in 1..6 |-> Tab(d)])
        S(d) == [c \in P |-> << T[d][c][1], T[d][c][2] >>]
    IN IF { Cell(n, x[1]) : x \in D } # P \/ Len(w) # Cardinality(P) THEN {"index-of-triple"}
       ELSE UNION { UNION {
               SweepClauses(TLCEval(S(2 * a - 1)), p[1], p[2], a, TRUE),
               SweepClauses(TLCEval(S(2 * a)), p[1], p[2], a, FALSE),
               InverseClauses(TLCEval(S(2 * a - 1)), TLCEval(S(2 * a)), p[1], p[2]),
               IF \A c \in P : (T[2 * a - 1][c][3] = 1 <=> LineEnd(c, p[1], p[2], a, TRUE))
                               /\ (T[2 * a][c][3] = 1 <=> LineEnd(c, p[1], p[2], a, FALSE)) THEN {} ELSE {"is-end"} } : a \in SAx }
MapClauses(m, r) ==
    LET t == m.t
        nn == m.nv
    IN UNION {
        IF Near3(r.g, t) /\ Near3(r.p, t) THEN {} ELSE {"bounds-map-onto-each-other"},
        IF Near3(r.gp, t) /\ Near3(r.pg, t) THEN {} ELSE {"mappings-are-inverse"},
        IF r.det - 100000000 \in -2..2 THEN {} ELSE {"determinant"},
        IF Near3(r.ipg, t) /\ r.ipw - 100000000 \in -2..2 /\ r.ipb - 100000000 \in -2..2 THEN {} ELSE {"point-weights"},
        IF Near3(r.bpg, t) /\ (\A a \in SAx : r.bpa[a] - 1000000 * nn[a] \in -20..20) /\ r.bpn - 100000000 \in -10..10
           /\ r.bpb[1] - 100000000 \in -10..10 /\ (\A a \in SAx : r.bpb[a + 1] - 1000000 * nn[a] \in -20..20)
        THEN {} ELSE {"boundary-points"} }
G01Verdict(s, o) ==
    LET n == s.n
        N == n[1] * n[2] * n[3]
        I == 0..N-1
    IN UNION {
        IF o.N = N THEN {} ELSE {"number-of-cells"},
        IF \A i \in I : o.ix[i + 1] = Cell(n, i) \o << i >> THEN {} ELSE {"index-one-to-one"},
        IF \A i \in I : \A a \in SAx : o.bx[i + 1][2 * a - 1] = 1000 * Cell(n, i)[a] /\ o.bx[i + 1][2 * a] = 1000 * (Cell(n, i)[a] + 1)
        THEN {} ELSE {"physical-bounds"},
        IF \A i \in I : \A a \in SAx :
              LET c == IF s.grid = "b_spline_grid" THEN Cell(n, i)[a] ELSE 0
              IN o.bu[i + 1][2 * a - 1] = 1000 * c /\ o.bu[i + 1][2 * a] = 1000 * (c + 1)
        THEN {} ELSE {"parametric-bounds"},
        IF o.gaps = 0 THEN {} ELSE {"no-gaps"},
        IF o.over = 0 /\ o.rev = 0 THEN {} ELSE {"overloads-agree"},
        IF Len(o.walk) # Len(s.parts) THEN {"walks"} ELSE UNION { WalkClauses(n, s.parts[k], o.walk[k]) : k \in 1..Len(s.parts) },
        IF Len(o.maps) # Len(s.maps) THEN {"maps"} ELSE UNION { MapClauses(s.maps[k], o.maps[k]) : k \in 1..Len(s.maps) } }
=============================================================================
