-------------------------------- MODULE PySeq --------------------------------
(* Indexed access from Python to a sequence of n items. Items are numbered from 0; an exception is -1 (IndexError)   *)
(* or -2 (another one).                                                                                              *)
EXTENDS Integers, Sequences

\* beyond the end: an exception. Negative indices either count from the end or are refused.
Answers(n, i) == IF 0 <= i /\ i < n THEN {i}
                 ELSE IF -n <= i /\ i < 0 THEN {n + i, -1, -2}
                 ELSE {-1, -2}
\* code outside the range of the index type is refused in any way
ProbeOk(p) == /\ p.iter = p.n /\ p.bad = 0
              /\ \A k \in 1..Len(p.r) : p.r[k][2] \in Answers(p.n, p.r[k][1])
=============================================================================
