------------------------------- MODULE GGQBoxes -------------------------------
(* How the full elements are split into boxes that carry one tensor rule each. Pattern, start elements and directions
   of growth are arbitrary (the implementation picks them by neighbor coefficients): a box may grow in a direction iff
   the unvisited full neighbors of its elements in that direction are as many as its cross section has cells. *)
EXTENDS Integers, FiniteSets

CONSTANTS N1, N2, N3, WRAP \* WRAP: stepping over the end of a line reaches the next line (the defect found in QuESo)

Cells == (0..N1-1) \X (0..N2-1) \X (0..N3-1)
Dirs == (1..3) \X {-1, 1}
Size == << N1, N2, N3 >>
Inner(c, d) == IF d[2] = 1 THEN c[d[1]] < Size[d[1]] - 1 ELSE c[d[1]] > 0
Step(c, d) == [c EXCEPT ![d[1]] = @ + d[2]]
\* the cell after the end of a line in x (the next line of the sweep)
Wrapped(c, d) == IF d[1] = 1 /\ d[2] = 1 /\ c[2] < N2 - 1 THEN << 0, c[2] + 1, c[3] >>
                 ELSE IF d[1] = 1 /\ d[2] = -1 /\ c[2] > 0 THEN << N1 - 1, c[2] - 1, c[3] >> ELSE c
Next6(c, d) == IF Inner(c, d) THEN {Step(c, d)} ELSE IF WRAP /\ Wrapped(c, d) # c THEN {Wrapped(c, d)} ELSE {}

VARIABLES full, visited, box, size, done, pc
vars == << full, visited, box, size, done, pc >>

\* done: finished boxes <<elements, size>>
Init == /\ full \in SUBSET Cells
        /\ visited = {} /\ box = {} /\ size = << 1, 1, 1 >> /\ done = {} /\ pc = "pick"

Pick == /\ pc = "pick"
        /\ \E c \in full \ visited : box' = {c} /\ visited' = visited \cup {c}
        /\ size' = << 1, 1, 1 >> /\ pc' = "grow" /\ UNCHANGED << full, done >>

\* neighbors as a bag: an element found twice counts twice, as in the code
Found(d) == { << c, q >> \in box \X full : q \in Next6(c, d) /\ q \notin visited }
Cross(d) == CASE d[1] = 1 -> size[2] * size[3] [] d[1] = 2 -> size[1] * size[3] [] d[1] = 3 -> size[1] * size[2]
CanGrow(d) == Found(d) # {} /\ Cardinality(Found(d)) = Cross(d)
Grow == /\ pc = "grow"
        /\ \E d \in Dirs : /\ CanGrow(d)
                           /\ LET new == { f[2] : f \in Found(d) }
                              IN box' = box \cup new /\ visited' = visited \cup new
                           /\ size' = [size EXCEPT ![d[1]] = @ + 1]
        /\ UNCHANGED << full, done, pc >>
Finish == /\ pc = "grow" /\ \A d \in Dirs : ~CanGrow(d)
          /\ done' = done \cup { << box, size >> } /\ pc' = "pick" /\ box' = {} /\ UNCHANGED << full, visited, size >>
Next == Pick \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsBox(b, sz) == \E lo \in Cells : \A a \in 1..3 : TRUE /\ b = { c \in Cells : \A k \in 1..3 : lo[k] <= c[k] /\ c[k] < lo[k] + sz[k] }
                                                   /\ Cardinality(b) = sz[1] * sz[2] * sz[3]
BoxShape == pc = "grow" => IsBox(box, size)
DoneShape == \A d \in done : IsBox(d[1], d[2])
Disjoint == \A a, b \in done : a # b => a[1] \cap b[1] = {}
Inside == visited \subseteq full
\* when nothing is left to pick, the boxes cover every full element exactly once
Covered == (pc = "pick" /\ visited = full) => UNION { d[1] : d \in done } = full
Terminates == <>[](pc = "pick" /\ visited = full)
=============================================================================
