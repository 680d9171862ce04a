------------------------------- MODULE TraceQ03 -------------------------------
(* Q03: generalized Gaussian rules. The target space of a rule for order p is the space of splines with degree Deg and
   continuity p-2 at the knots between the elements; it is spanned by the powers of degree 0..Deg and the one-sided
   powers of degree p-1..Deg at every inner knot. *)
EXTENDS Lattice, TraceCore

Deg(p, m) == CASE m = "GGQ_Optimal" -> 2 * p [] m = "GGQ_Reduced1" -> 2 * p - 1 [] m = "GGQ_Reduced2" -> 2 * p - 2
Cont(p) == p - 2
\* dimension of the space on e elements; a Gaussian rule needs half as many points
Dim(p, m, e) == (Deg(p, m) + 1) + (e - 1) * (Deg(p, m) - Cont(p))
InSpace(t, p, m) == t[2] <= Deg(p, m) /\ (t[1] = 0 \/ t[2] > Cont(p))

OneVerdict(s, o) == UNION {
    IF o.np = (Dim(s.p, s.method, s.e) + 1) \div 2 THEN {} ELSE {"number-of-points"},
    IF o.out = 0 /\ o.dup = 0 THEN {} ELSE {"points-inside"},
    IF o.neg = 0 THEN {} ELSE {"positive-weights"},
    IF Len(o.err) = s.e /\ \A k \in 1..Len(o.err) : \A d \in 0..Deg(s.p, s.method) :
           (k = 1 \/ d > Cont(s.p)) => o.err[k][d + 1] <= 100 THEN {} ELSE {"exact-for-target-space"} }

ModelVerdict(s, o) ==
    LET U == LU(s)
        V == TLCEval(CellVols(s, s.n, U))
        F == { i \in CellSet(s.n) : ClassOf(V[i], U) = "i" }
    IN UNION {
        IF { o.full[k][1] - 1 : k \in 1..Len(o.full) } = F /\ Len(o.full) = Cardinality(F) THEN {} ELSE {"full-elements"},
        IF o.out = 0 THEN {} ELSE {"points-in-own-element"},
        IF o.neg = 0 THEN {} ELSE {"positive-weights"},
        IF Abs(o.w - 1000000 * Cardinality(F)) <= 1 + Cardinality(F) \div 10 THEN {} ELSE {"weights-sum-to-full-volume"},
        IF Len(o.err) = Len(s.tests) /\ \A k \in 1..Len(o.err) :
             (\A a \in Ax : InSpace(s.tests[k][a], s.p[a], s.method)) => o.err[k] <= 100 THEN {} ELSE {"exact-for-splines"} }

Q03Verdict(s, o) == IF s.ev = "ggq1d" THEN OneVerdict(s, o) ELSE ModelVerdict(s, o)
=============================================================================
