------------------------------- MODULE GridWalk -------------------------------
(* Two walkers sweep a partition forward and backward; all partitions of all grids up to N per direction. *)
EXTENDS GridSweep
CONSTANT N
VARIABLES lo, hi, a, at, seen, over
vars == << lo, hi, a, at, seen, over >>
Init == /\ lo \in PCells(<< 0, 0, 0 >>, << N - 1, N - 1, N - 1 >>) /\ hi \in PCells(lo, << N - 1, N - 1, N - 1 >>)
        /\ a \in SAx /\ at = lo /\ seen = {lo} /\ over = FALSE
Walk == /\ ~over
        /\ LET r == StepOf(at, lo, hi, a, TRUE)
           IN /\ at' = r[1] /\ seen' = seen \cup {r[1]} /\ over' = (r[2] = 2)
        /\ UNCHANGED << lo, hi, a >>
Spec == Init /\ [][Walk]_vars /\ WF_vars(Walk)
\* no cell is visited twice
NoRepeat == [][~over' => at' \notin seen]_vars
All == over => seen = PCells(lo, hi)
Ends == <>over
Sound == LET f == [c \in PCells(lo, hi) |-> StepOf(c, lo, hi, a, TRUE)]
             b == [c \in PCells(lo, hi) |-> StepOf(c, lo, hi, a, FALSE)]
         IN at = lo => SweepClauses(f, lo, hi, a, TRUE) \cup SweepClauses(b, lo, hi, a, FALSE) \cup InverseClauses(f, b, lo, hi) = {}
=============================================================================
