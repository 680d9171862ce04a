------------------------------ MODULE SplineVol ------------------------------
(* One direction of the spline volume of a grid of n cells and order p, in units of cells: the parametric interval  *)
(* is 0..n. Knots are integers; a control point is given by p times its coordinate, which is an integer too.        *)
EXTENDS Integers, Sequences

Knots(n, p, open) == [i \in 1..(n + 2 * p + 1) |->
                        LET k == i - 1 - p IN IF ~open THEN k ELSE IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k]
RECURSIVE SumTo(_, _, _)
SumTo(t, a, b) == IF a > b THEN 0 ELSE t[a] + SumTo(t, a + 1, b)
\* a spline of which all control points are the averages of p successive knots is the identity map
Greville(t, p) == [i \in 1..(Len(t) - p - 1) |-> SumTo(t, i + 1, i + p)]
Cps(n, p, open) == Greville(Knots(n, p, open), p)
NumCps(n, p) == n + p
=============================================================================
