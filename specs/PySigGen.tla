------------------------------ MODULE PySigGen ------------------------------
(* Calls: each parameter gets a kind of value. At most Wrong of them are not of a kind that is taken for certain.    *)
EXTENDS PySig, TLC, Json

CONSTANT Wrong
VARIABLES c, a
vars == << c, a >>
Bad == { k \in 1..Len(a) : a[k] \notin Takes[Sig[c][k]] }
Init == c \in Names /\ a = << >>
Next == /\ Len(a) < Len(Sig[c]) + 1
        /\ \E v \in Values : a' = Append(a, v) /\ c' = c
Few == Cardinality({ k \in 1..Len(a) : IF k <= Len(Sig[c]) THEN a[k] \notin Takes[Sig[c][k]] ELSE FALSE }) <= Wrong
Spec == Init /\ [][Next]_vars
\* one wrong value is enough, whatever the others are
OneWrong == Len(a) = Len(Sig[c]) => (Expect(c, a) = -1 <=> \E k \in 1..Len(a) : a[k] \notin Takes[Sig[c][k]] \cup May[Sig[c][k]])
\* a value is not both taken for certain and possibly refused, and every kind of parameter refuses something
Table == \A p \in DOMAIN Takes : Takes[p] \cap May[p] = {} /\ Takes[p] # {} /\ Values \ (Takes[p] \cup May[p]) # {}
Emit == Len(a) >= Len(Sig[c]) - 1 => PrintT("CALL " \o ToJson([c |-> c, a |-> a]))
=============================================================================
