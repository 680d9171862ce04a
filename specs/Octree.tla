-------------------------------- MODULE Octree --------------------------------
(* The octree of a trimmed cell as a state machine. A node is << level, i, j, k >>: box (i, j, k) of the 2^level
   subdivision of the root box. C maps nodes to "i" (the box is full), "o" (empty) or "t" (cut).
   A state is [lv: leaves, mn, mx: levels reached]. *)
EXTENDS Integers, Sequences, FiniteSets

Root == << 0, 0, 0, 0 >>
Kids(n) == { << n[1] + 1, 2 * n[2] + a, 2 * n[3] + b, 2 * n[4] + c >> : a \in 0..1, b \in 0..1, c \in 0..1 }
Parent(n) == << n[1] - 1, n[2] \div 2, n[3] \div 2, n[4] \div 2 >>
\* the root is taken as cut without asking
Cls(C, n) == IF n = Root THEN "t" ELSE C[n]
RECURSIVE Grow(_, _, _, _)
Grow(C, n, mn, mx) ==
    IF n[1] < mn \/ (n[1] < mx /\ Cls(C, n) = "t")
    THEN LET k == { x \in Kids(n) : C[x] # "o" }
         IN IF k = {} THEN {n} ELSE UNION { Grow(C, x, mn, mx) : x \in k }
    ELSE {n}
TreeInit == [lv |-> {Root}, mn |-> 0, mx |-> 0]
Mx(a, b) == IF a > b THEN a ELSE b
\* refinement: a minimum above the maximum is refused and changes nothing
RefineTree(C, T, mn, mx) ==
    IF mn > mx THEN << T, 0 >>
    ELSE << [lv |-> UNION { Grow(C, n, mn, mx) : n \in T.lv }, mn |-> Mx(T.mn, mn), mx |-> Mx(T.mx, mx)], 1 >>
RECURSIVE Up(_)
Up(n) == IF n[1] = 0 THEN {n} ELSE {n} \cup Up(Parent(n))
NodesOf(T) == UNION { Up(n) : n \in T.lv }
=============================================================================
