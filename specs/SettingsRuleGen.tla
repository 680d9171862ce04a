---------------------------- MODULE SettingsRuleGen ----------------------------
(* The decision table of D03, row by row, with its laws. *)
EXTENDS SettingsRule
VARIABLES g, m, p
Orders == 0..6
Init == g \in 1..2 /\ m \in 1..6 /\ p \in Orders \X Orders \X Orders
Next == FALSE /\ UNCHANGED << g, m, p >>
Spec == Init /\ [][Next]_<< g, m, p >>
Perm(q, i, j, k) == << q[i], q[j], q[k] >>
\* direction independent; rules of the Gauss family do not depend on the grid type or on how large orders are
Symmetric == /\ Admissible(g, m, p) = Admissible(g, m, Perm(p, 2, 1, 3)) /\ Admissible(g, m, p) = Admissible(g, m, Perm(p, 2, 3, 1))
GaussAnyGrid == m <= 3 => Admissible(1, m, p) = Admissible(2, m, p)
Monotone == (m <= 3 /\ Admissible(g, m, p)) => Admissible(g, m, << p[1] + 1, p[2], p[3] >>)
GgqRefinesReduced2 == (m \in GGQ /\ Admissible(g, m, p)) => Admissible(g, GaussReduced2, p)
EveryRuleUsable == \A mm \in 1..6 : \E gg \in 1..2 : \E q \in {<< 2, 2, 2 >>} : Admissible(gg, mm, q)
=============================================================================
