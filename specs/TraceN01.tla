------------------------------- MODULE TraceN01 -------------------------------
(* N01: the solver of non-negative least squares. s.x is an optimal point, which is verified here. *)
EXTENDS Nnls, TraceCore
N01Verdict(s, o) ==
    LET m == Len(s.b)
        f == TLCEval(NnFit(s.A, s.x, m))
        r == TLCEval(NnRest(s.b, f))
    IN IF ~NnKkt(s.A, s.x, r) THEN {"scenario"}
       ELSE UNION { IF o.len = Len(s.A) THEN {} ELSE {"size-of-solution"},
                    IF o.neg = 0 THEN {} ELSE {"non-negative"},
                    IF o.pos <= m THEN {} ELSE {"at-most-as-many-as-equations"},
                    IF o.fit = f THEN {} ELSE {"best-fit"},
                    IF o.r2 = NnDot(r, r) THEN {} ELSE {"residual"} }
=============================================================================
