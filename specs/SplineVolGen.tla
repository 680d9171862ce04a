----------------------------- MODULE SplineVolGen -----------------------------
(* Construction of the spline: one span with p + 1 control points, then knots inserted in any order (Boehm).        *)
(* Control points stay the averages of the knots, so the map stays the identity; the result does not depend on the  *)
(* order. Control points are integers here: p times the coordinate times the product of the denominators met is     *)
(* avoided by checking that each new point is determined by an exact division.                                      *)
EXTENDS SplineVol, FiniteSets, TLC

CONSTANTS MaxN, MaxP
VARIABLES n, p, open, t, c, exact
vars == << n, p, open, t, c, exact >>

T0(nn, pp, o) == [i \in 1..(2 * pp + 2) |-> IF o THEN (IF i <= pp + 1 THEN 0 ELSE nn)
                                             ELSE IF i <= pp + 1 THEN i - 1 - pp ELSE nn + i - pp - 2]
\* control points of the single span: equally spaced between the bounds, and moved outwards for a uniform vector
\* (2 p times the coordinate is integral, the factor 2 is divided out exactly)
C0(nn, pp, o) == [i \in 1..(pp + 1) |-> IF o THEN (i - 1) * nn ELSE (2 * (i - 1) * nn + (pp - 1) * (2 * (i - 1) - pp)) \div 2]
Init == /\ n \in 1..MaxN /\ p \in 1..MaxP /\ open \in BOOLEAN
        /\ t = T0(n, p, open) /\ c = C0(n, p, open) /\ exact = TRUE
Span(tt, u) == CHOOSE k \in 1..(Len(tt) - 1) : tt[k] <= u /\ u < tt[k + 1]
Insert(u) == LET k == Span(t, u)
                 num(i) == (u - t[i]) * c[i] + (t[i + p] - u) * c[i - 1]
                 den(i) == t[i + p] - t[i]
             IN /\ c' = [i \in 1..(Len(c) + 1) |-> IF i <= k - p THEN c[i] ELSE IF i > k THEN c[i - 1] ELSE num(i) \div den(i)]
                /\ exact' = (exact /\ \A i \in (k - p + 1)..k : (num(i) % den(i)) = 0)
                /\ t' = SubSeq(t, 1, k) \o << u >> \o SubSeq(t, k + 1, Len(t))
                /\ UNCHANGED << n, p, open >>
Next == \E u \in 1..(n - 1) : (~\E i \in 1..Len(t) : t[i] = u) /\ Insert(u)
Spec == Init /\ [][Next]_vars
\* the start has integral control points
StartExact == open \/ \A i \in 0..p : ((2 * i * n + (p - 1) * (2 * i - p)) % 2) = 0
Linear == exact /\ c = Greville(t, p)
Counts == Len(c) = Len(t) - p - 1
Inserted == Cardinality({ t[i] : i \in 1..Len(t) } \cap (1..(n - 1)))
Complete == Inserted = n - 1 => t = Knots(n, p, open) /\ c = Cps(n, p, open) /\ Len(c) = NumCps(n, p)
=============================================================================
