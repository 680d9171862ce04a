------------------------------- MODULE PointElim -------------------------------
(* The elimination of points in one direction: candidates at integer positions, moments of degree 0..P. A fit on some points
   uses any independent ones of them that reach the moments within Tol; where there are none, it fails with whatever points.
   After the first fit, points without weight are dropped and the rest is fitted again; from then on the smallest point is
   dropped as long as the fit holds. The last rule that held is the result. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS P, MaxPos, MaxW, Tol, Big, Cand, Result, Reported
VARIABLES b, pts, w, res, prev, prevres, first, gone, last, phase, rule, said
vars == << b, pts, w, res, prev, prevres, first, gone, last, phase, rule, said >>
Pos == 0..MaxPos
NF == P + 1
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN 1 ELSE x * PowI(x, k - 1)
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumS(S \ {i}, f)
RECURSIVE ProdS(_, _)
ProdS(S, f) == IF S = {} THEN 1 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] * ProdS(S \ {i}, f)
Abs(k) == IF k < 0 THEN -k ELSE k
\* a rule: numerators of the weights on its points over a common denominator
Moment(r, k) == SumS(r.p, [i \in r.p |-> r.n[i] * PowI(i, k)])
Holds(r) == \A k \in 0..P : Abs(Moment(r, k) - r.d * b[k]) <= Tol * r.d
Positive(r) == \A i \in r.p : r.n[i] > 0
\* the weights on up to three points that reach their first moments: Lagrange polynomials applied to the moments
Solve(T) ==
    LET D(i) == ProdS(T \ {i}, [j \in T \ {i} |-> i - j])
        L(i) == LET o == T \ {i} IN
                IF o = {} THEN b[0]
                ELSE IF Cardinality(o) = 1 THEN b[1] - (CHOOSE j \in o : TRUE) * b[0]
                ELSE b[2] - SumS(o, [j \in o |-> j]) * b[1] + ProdS(o, [j \in o |-> j]) * b[0]
        d == Abs(ProdS(T, [i \in T |-> D(i)]))
    IN [p |-> T, n |-> [i \in T |-> L(i) * (d \div D(i))], d |-> d]
Fits(S) == { r \in { Solve(T) : T \in { T \in SUBSET S : T # {} /\ Cardinality(T) <= NF } } : Positive(r) /\ Holds(r) }
Spread(S, r) == [p |-> S, n |-> [i \in S |-> IF i \in r.p THEN r.n[i] ELSE 0], d |-> r.d]
None == [p |-> {}, n |-> << >>, d |-> 1]
Init ==
    /\ b \in { [k \in 0..P |-> SumS(Pos, [i \in Pos |-> t[i] * PowI(i, k)])] : t \in [Pos -> 0..MaxW] } \cup
             { [k \in 0..P |-> IF k = 0 THEN v ELSE v * PowI(MaxPos + 3, k)] : v \in 1..MaxW }
    /\ b[0] > Tol
    /\ pts \in { S \in SUBSET Pos : Cardinality(S) >= Cand }
    /\ w = None /\ res = "none" /\ prev = None /\ prevres = "none" /\ first = TRUE /\ gone = FALSE /\ last = FALSE
    /\ phase = "fit" /\ rule = None /\ said = "none"
Fit ==
    /\ phase = "fit"
    /\ IF Fits(pts) # {} THEN \E r \in Fits(pts) : w' = Spread(pts, r) /\ res' = "ok"
       ELSE \E T \in SUBSET pts : Cardinality(T) <= NF /\ w' = Spread(pts, [p |-> T, n |-> [i \in T |-> 1], d |-> 1]) /\ ~Holds(w') /\ res' = "bad"
    /\ gone' = FALSE /\ phase' = "drop"
    /\ UNCHANGED << b, pts, prev, prevres, first, last, rule, said >>
Drop ==
    /\ phase = "drop"
    /\ IF first THEN
            LET keep == { i \in pts : w.n[i] > 0 }
            IN /\ pts' = keep /\ first' = FALSE /\ w' = [p |-> keep, n |-> [i \in keep |-> w.n[i]], d |-> w.d]
               /\ gone' = (keep # {}) /\ phase' = IF keep = {} THEN "end" ELSE "loop"
               /\ UNCHANGED << prev, prevres, last >>
       ELSE IF res = "ok" /\ ~last THEN
            LET top == CHOOSE m \in { w.n[i] : i \in pts } : \A i \in pts : w.n[i] <= m
                small == { i \in pts : w.n[i] * Big < top }
                least == { i \in pts : \A j \in pts : w.n[i] <= w.n[j] }
            IN /\ prev' = w /\ prevres' = res
               /\ \E i \in least :
                    LET keep == IF small # {} THEN pts \ small ELSE IF Cardinality(pts) > P THEN pts \ {i} ELSE pts
                    IN pts' = keep /\ gone' = (keep # pts) /\ last' = (Cardinality(keep) <= P)
               /\ phase' = "loop" /\ UNCHANGED << w, first >>
       ELSE phase' = "loop" /\ UNCHANGED << pts, w, prev, prevres, first, gone, last >>
    /\ UNCHANGED << b, res, rule, said >>
Loop == /\ phase = "loop" /\ phase' = IF gone \/ (res = "ok" /\ ~last) THEN "fit" ELSE "end"
        /\ UNCHANGED << b, pts, w, res, prev, prevres, first, gone, last, rule, said >>
End ==
    /\ phase = "end" /\ phase' = "done"
    /\ LET back == (res = "bad" /\ prev.p # {}) \/ last
           r == IF back /\ Result = "previous" THEN prev ELSE w
           q == { i \in r.p : r.n[i] > 0 }
       IN /\ rule' = [p |-> q, n |-> [i \in q |-> r.n[i]], d |-> r.d]
          /\ said' = IF back /\ Reported = "previous" THEN prevres ELSE res
    /\ UNCHANGED << b, pts, w, res, prev, prevres, first, gone, last >>
Next == Fit \/ Drop \/ Loop \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what is relied on
Done == phase = "done"
Sound == Done => Positive(rule) /\ Cardinality(rule.p) <= NF
Told == Done => (said = "ok") = Holds(rule)
\* whenever some rule on the candidates exists, one is found: the result is never worse than the first fit
Never == (Done /\ prev.p # {}) => Holds(rule)
NotEmpty == (Done /\ b[0] > Tol /\ said = "ok") => rule.p # {}
OnCandidates == rule.p \subseteq Pos
Ends == <>Done
=============================================================================
