------------------------------ MODULE SettingsRule ------------------------------
(* D03: which settings a model is created from. Required values come from the registry of DictStore. *)
EXTENDS DictStore
Gauss == 1
GaussReduced1 == 2
GaussReduced2 == 3
GGQ == {4, 5, 6}        \* optimal, reduced by one, reduced by two
Spline == 1
MinOf(p) == IF p[1] <= p[2] /\ p[1] <= p[3] THEN p[1] ELSE IF p[2] <= p[3] THEN p[2] ELSE p[3]
MaxOf(p) == IF p[1] >= p[2] /\ p[1] >= p[3] THEN p[1] ELSE IF p[2] >= p[3] THEN p[2] ELSE p[3]
\* grid type g, method m, orders p
Admissible(g, m, p) ==
    /\ MinOf(p) >= 1
    /\ m = GaussReduced2 => MinOf(p) >= 2
    /\ m \in GGQ => g = Spline /\ MinOf(p) >= 2 /\ MaxOf(p) <= 4
SettingsKinds == {"GeneralSettings", "BackgroundGridSettings", "TrimmedQuadratureRuleSettings", "NonTrimmedQuadratureRuleSettings"}
KeysOfKind(kd) == { QuesoRegistry[kd].keys[i] : i \in 1..Len(QuesoRegistry[kd].keys) }
RequiredKeys == UNION { { x.k : x \in { y \in KeysOfKind(kd) : y.r = 1 } } : kd \in SettingsKinds }
DefaultKeys == UNION { { x.k : x \in { y \in KeysOfKind(kd) : y.d # 0 } } : kd \in SettingsKinds }
CondRequired == { x.k : x \in { y \in KeysOfKind("ConditionSettings") : y.r = 1 } }
\* bare: the defaults are not there
Complete1(given, bare) == RequiredKeys \subseteq (given \cup (IF bare THEN {} ELSE DefaultKeys))
CondComplete(c) == c.null = 0 /\ CondRequired \subseteq { c.given[i] : i \in 1..Len(c.given) }
Accepted(given, bare, conds, g, m, p) ==
    Complete1(given, bare) /\ (\A i \in 1..Len(conds) : CondComplete(conds[i])) /\ Admissible(g, m, p)
=============================================================================
