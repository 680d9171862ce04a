------------------------------ MODULE TraceN01x ------------------------------
(* N01: random problems. The weights are observed in thousandths; the conditions of an optimum have to hold up to what rounding
   to thousandths can change. Weights of twenty and more are not judged (nearly dependent columns). *)
EXTENDS Nnls, TraceCore
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE SumAbs(_, _, _, _)
SumAbs(A, b, j, k) == IF k = 0 THEN 0 ELSE Abs(NnDot(A[j], A[k])) + SumAbs(A, b, j, k - 1)
RECURSIVE RootFrom(_, _, _)
RootFrom(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET c == (lo + hi) \div 2 IN IF c <= v \div c THEN RootFrom(v, c, hi) ELSE RootFrom(v, lo, c)
N01xVerdict(s, o) ==
    LET m == Len(s.b)
        n == Len(s.A)
        r == TLCEval(NnRest([i \in 1..m |-> 1000 * s.b[i]], NnFit(s.A, o.x, m)))
        w == TLCEval([j \in 1..n |-> NnDot(s.A[j], r)])
        lim == TLCEval([j \in 1..n |-> SumAbs(s.A, s.b, j, n) \div 2 + 2])
        \* the norm of the residual in thousandths, rounded down; its entries in hundredths to stay in range
        q == TLCEval([i \in 1..m |-> IF r[i] < 0 THEN -((-r[i]) \div 10) ELSE r[i] \div 10])
        near == \A i \in 1..m : Abs(q[i]) <= 10000
        nr == IF near THEN 10 * RootFrom(NnDot(q, q), 0, 40000) ELSE 0
        \* rounding of weights, and of q
        slack == 13 * m * n + 20 + 10 * m
    IN UNION { IF Len(o.x) = n THEN {} ELSE {"size-of-solution"},
               IF o.neg = 0 THEN {} ELSE {"non-negative"},
               IF o.pos <= m THEN {} ELSE {"at-most-as-many-as-equations"},
               IF Len(o.x) # n \/ o.big THEN {}
               ELSE IF ~near THEN {"best-fit"}
               ELSE UNION { IF \A j \in 1..n : w[j] <= lim[j] THEN {} ELSE {"column-would-help"},
                            IF \A j \in 1..n : o.x[j] > 0 => w[j] >= -lim[j] THEN {} ELSE {"column-is-too-heavy"},
                            IF Abs(o.r - nr) <= slack THEN {} ELSE {"residual"} } }
=============================================================================
