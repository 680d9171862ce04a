------------------------------- MODULE TraceQ04 -------------------------------
(* Q04: a fictitious domain adds the Gauss points outside the solid, with alpha times their weight, and nothing else.
   Scenario: alpha = s.al[1] / s.al[2]. Observation: elements of the model without and with the factor. *)
EXTENDS TrimGeo, Gauss, TraceCore

Pert == { <<3, 5, 7>>, <<3, 5, -7>>, <<3, -5, 7>>, <<3, -5, -7>>, <<-3, 5, 7>>, <<-3, 5, -7>>, <<-3, -5, 7>>, <<-3, -5, -7>>,
          <<0, 1, 2>>, <<2, 1, 0>>, <<7, 5, 3>>, <<-7, -5, -3>>, <<5, 3, -7>>, <<5, -7, 3>>, <<-7, 5, 3>>, <<-5, -3, 7>>, <<-5, 7, -3>>, <<7, -5, -3>> }
InAt(P, x) == IF P.k = "kuhn" THEN RelTet(x, 10000) \in P.e
              ELSE \E e \in P.e : \A a \in Ax : 10000 * e[1][a] < x[a] /\ x[a] < 10000 * e[2][a]
Maybe(P, p, v) == \E q \in Pert : InAt(P, [a \in Ax |-> 10 * p[a] + q[a]]) = v

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Near(a, b, t) == Abs(a - b) <= t
SamePoint(p, q) == \A a \in Ax : Near(p[a], q[a], 1)
\* expected place (1/1000 lattice) and weight (1/100000 lattice volume) of Gauss point g
GP(U, n, g) == [a \in Ax |-> (U * GPoint(n, g)[a] + 500) \div 1000]
GWt(s, U, n, g) == (((GWeight(n, g) * U * U * U) \div s.al[2]) * s.al[1]) \div 10
Matches(s, U, n, g, e) == { k \in 1..e.np : SamePoint(e.pts[k], GP(U, n, g)) /\ Near(e.w[k], GWt(s, U, n, g), 3 + GWt(s, U, n, g) \div 300) }

Trimmed(s, o, w, e) ==
    LET U == LU(s)
        P == TLCEval(CellPart(s, U, CellOf(s.n, e.id - 1)))
        n == [a \in Ax |-> s.p[a] + 1]
        G == GIdx(n)
        Out == TLCEval({ g \in G : ~ Maybe(P, GP(U, n, g), TRUE) })     \* certainly outside the solid
        In == TLCEval({ g \in G : ~ Maybe(P, GP(U, n, g), FALSE) })     \* certainly inside
        M == TLCEval([g \in G |-> Matches(s, U, n, g, e)])
        Fict == UNION { M[g] : g \in G \ In }
        Rest == (1..e.np) \ Fict
        SumW(x, K) == Sum(K, LAMBDA k : x.w[k])
    IN UNION {
        IF \A g \in Out : Cardinality(M[g]) = 1 THEN {} ELSE {"every-outside-gauss-point-with-factor-alpha"},
        IF \A g \in In : M[g] = {} \/ \E k \in 1..w.np : SamePoint(w.pts[k], GP(U, n, g)) THEN {} ELSE {"no-inside-gauss-point"},
        \* what remains is a rule of the solid part (the fit is not unique: the points may differ from run to run)
        IF Cardinality(Rest) >= 1 /\ Cardinality(Rest) <= Cardinality(G) THEN {} ELSE {"number-of-solid-points"},
        IF \A k \in Rest : Maybe(P, e.pts[k], TRUE) THEN {} ELSE {"other-points-in-solid"},
        IF Near(SumW(e, Rest), SumW(w, 1..w.np), 2 * (e.np + w.np) + (12 * U * U * U * 1000) \div Pow10(s.resexp - 2))
            THEN {} ELSE {"solid-part-volume"},
        IF e.neg = 0 THEN {} ELSE {"positive-weights"},
        IF e.mism = 0 THEN {} ELSE {"global-and-parametric-points-agree"},
        IF \A k \in 1..e.np : \A a \in Ax : e.pts[k][a] >= 0 /\ e.pts[k][a] <= 1000 * U THEN {} ELSE {"points-in-element"}
       }
Untouched(w, e) == /\ w.np = e.np
                   /\ \A k \in 1..e.np : SamePoint(w.pts[k], e.pts[k]) /\ Near(w.w[k], e.w[k], 1)

Q04Verdict(s, o) ==
    LET Ids(x) == { x[k].id : k \in 1..Len(x) }
        warned == { o.warn[k] : k \in 1..Len(o.warn) }
        At(x, i) == x[CHOOSE k \in 1..Len(x) : x[k].id = i]
    IN UNION {
        IF (Ids(o.without) \ warned) = (Ids(o.with) \ warned) THEN {} ELSE {"same-elements"},
        UNION { IF e \in warned \/ e \notin Ids(o.without) THEN {}
                ELSE IF At(o.with, e).t # At(o.without, e).t THEN {"same-kind"}
                ELSE IF At(o.with, e).t = 1 THEN Trimmed(s, o, At(o.without, e), At(o.with, e))
                ELSE IF Untouched(At(o.without, e), At(o.with, e)) THEN {} ELSE {"full-elements-unaffected"} : e \in Ids(o.with) },
        IF Near(o.rep0, 1000000, 5) /\ Near(o.rep1, 1000000, 5) THEN {} ELSE {"represented-volume"},
        IF o.ntot0 = Sum(1..Len(o.without), LAMBDA k : o.without[k].np) /\ o.ntot1 = Sum(1..Len(o.with), LAMBDA k : o.with[k].np)
            THEN {} ELSE {"number-of-points-reported"}
       }
=============================================================================
