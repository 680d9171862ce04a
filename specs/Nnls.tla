--------------------------------- MODULE Nnls ---------------------------------
(* Non-negative least squares: x >= 0 with the least |b - A x|. A is a sequence of columns; integers.
   A point is optimal exactly if no column points towards the residual, and those in use are orthogonal to it. The fit A x
   is the same for all optimal points. *)
EXTENDS Integers, Sequences
RECURSIVE NnDotTo(_, _, _)
NnDotTo(u, v, k) == IF k = 0 THEN 0 ELSE u[k] * v[k] + NnDotTo(u, v, k - 1)
NnDot(u, v) == NnDotTo(u, v, Len(u))
RECURSIVE NnRow(_, _, _, _)
NnRow(A, x, i, k) == IF k = 0 THEN 0 ELSE (IF x[k] = 0 THEN 0 ELSE A[k][i] * x[k]) + NnRow(A, x, i, k - 1)
NnFit(A, x, m) == [i \in 1..m |-> NnRow(A, x, i, Len(A))]
NnRest(b, f) == [i \in 1..Len(b) |-> b[i] - f[i]]
\* r: the residual of x
NnKkt(A, x, r) == \A j \in 1..Len(A) : x[j] >= 0 /\ NnDot(A[j], r) <= 0 /\ (x[j] > 0 => NnDot(A[j], r) = 0)
=============================================================================
