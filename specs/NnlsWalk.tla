------------------------------- MODULE NnlsWalk -------------------------------
(* The active set method on all problems with columns and right-hand sides of two small integers. x is a vector of numerators
   over the common denominator den; set: the columns in use; to: the solution on the columns in use while it has to be
   approached in steps that keep x non-negative. Any column that points towards the residual may be taken next. *)
EXTENDS Nnls, FiniteSets, TLC
CONSTANTS N, Lo, Hi, Clip
VARIABLES A, b, x, den, set, phase, best
vars == << A, b, x, den, set, phase, best >>
Vec == { << p, q >> : p \in (0 - Lo)..Hi, q \in (0 - Lo)..Hi }
Cols == 1..N
RECURSIVE Gcd(_, _)
Abs(k) == IF k < 0 THEN -k ELSE k
Gcd(p, q) == IF q = 0 THEN Abs(p) ELSE Gcd(q, p % Abs(q))
RECURSIVE GcdAll(_, _, _)
GcdAll(v, g, k) == IF k = 0 THEN g ELSE GcdAll(v, Gcd(v[k], g), k - 1)
Norm(v, d) == LET g == GcdAll(v, Abs(d), Len(v)) s == IF d < 0 THEN -1 ELSE 1 IN << [k \in 1..Len(v) |-> s * (v[k] \div g)], s * (d \div g) >>
Det(u, v) == u[1] * v[2] - u[2] * v[1]
\* the least squares solution on one or two independent columns: << numerators, denominator >>
SolveOn(s) ==
    IF s = {} THEN << [k \in Cols |-> 0], 1 >>
    ELSE IF Cardinality(s) = 1 THEN LET j == CHOOSE k \in s : TRUE IN << [k \in Cols |-> IF k = j THEN NnDot(A[j], b) ELSE 0], NnDot(A[j], A[j]) >>
    ELSE LET i == CHOOSE k \in s : \A e \in s : k <= e
             j == CHOOSE k \in s : k # i
         IN << [k \in Cols |-> IF k = i THEN Det(b, A[j]) ELSE IF k = j THEN Det(A[i], b) ELSE 0], Det(A[i], A[j]) >>
Solve(s) == LET t == SolveOn(s) IN Norm(t[1], t[2])
\* the residual, times den
Rest == NnRest([i \in 1..2 |-> den * b[i]], NnFit(A, x, 2))
Square == NnDot(Rest, Rest)
Init == /\ A \in [Cols -> Vec] /\ b \in Vec
        /\ x = [k \in Cols |-> 0] /\ den = 1 /\ set = {} /\ phase = "take" /\ best = << 1, 0 >>
Up(j) == NnDot(A[j], Rest) > 0
Take == /\ phase = "take"
        /\ \E j \in Cols \ set : Up(j) /\ set' = set \cup {j}
        /\ phase' = "move" /\ best' = << Square, den >>
        /\ UNCHANGED << A, b, x, den >>
Stop == phase = "take" /\ (\A j \in Cols \ set : ~Up(j)) /\ phase' = "done" /\ UNCHANGED << A, b, x, den, set, best >>
Move == /\ phase = "move"
        /\ LET t == Solve(set)
               z == t[1]
               dz == t[2]
               low == { k \in set : z[k] <= 0 }
           IN IF low = {} THEN x' = z /\ den' = dz /\ phase' = "take" /\ UNCHANGED set
              ELSE IF Clip THEN LET y == Norm([k \in Cols |-> IF z[k] < 0 THEN 0 ELSE z[k]], dz)
                                IN x' = y[1] /\ den' = y[2] /\ set' = { k \in set : z[k] > 0 } /\ phase' = "take"
              ELSE \* as far as x stays non-negative: the smallest x[k] / (x[k] - z[k]), over the common denominator den * dz
                   LET Num(k) == x[k] * dz
                       Den(k) == x[k] * dz - z[k] * den
                       f == CHOOSE k \in low : \A e \in low : Num(k) * Den(e) <= Num(e) * Den(k)
                       p == Num(f)
                       q == Den(f)
                       y == Norm([k \in Cols |-> x[k] * dz * (q - p) + z[k] * den * p], den * dz * q)
                   IN IF q = 0 THEN x' = x /\ den' = den /\ set' = set \ {f} /\ phase' = "move"
                      ELSE x' = y[1] /\ den' = y[2] /\ set' = { k \in set : y[1][k] > 0 } /\ phase' = "move"
        /\ UNCHANGED << A, b, best >>
Next == Take \/ Stop \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NonNegative == \A k \in Cols : x[k] >= 0 /\ (k \notin set => x[k] = 0)
Independent == Cardinality(set) <= 2 /\ (Cardinality(set) = 2 /\ phase = "take" => \A i, j \in set : i # j => Det(A[i], A[j]) # 0)
\* each column taken brings the fit closer to b
Closer == (phase = "take" /\ best[2] # 0) => Square * best[2] * best[2] < best[1] * den * den
\* the end is optimal, and no point of a grid is better
Optimal == phase = "done" => NnKkt(A, x, Rest)
Least == phase = "done" => \A y \in [Cols -> 0..3] : LET r == NnRest(b, NnFit(A, y, 2)) IN NnDot(r, r) * den * den >= Square
Ends == <>(phase = "done")
=============================================================================
