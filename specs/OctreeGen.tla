------------------------------ MODULE OctreeGen ------------------------------
(* All refinement histories of octrees over patterns of two levels: the laws the octree has to satisfy. *)
EXTENDS Octree, TLC, Json
CONSTANTS Levels, Depth, Kinds
VARIABLES C, T, h
vars == << C, T, h >>
AllNodes == (0..2) \X (0..3) \X (0..3) \X (0..3)
Child == << << 1, 0, 0, 0 >>, << 1, 1, 0, 0 >>, << 1, 1, 1, 0 >>, << 1, 0, 1, 0 >>, << 1, 0, 0, 1 >>, << 1, 1, 0, 1 >>, << 1, 1, 1, 1 >>, << 1, 0, 1, 1 >> >>
Patterns == { p \in [1..8 -> 1..Kinds] : \A a \in 1..7 : p[a] <= p[a + 1] }
\* kinds of children: empty, full, one full part, one cut part in a full box, everything cut
Low(p, n) == LET c == CHOOSE c \in 1..8 : Child[c] = Parent(n)
                 first == n[2] % 2 = 0 /\ n[3] % 2 = 0 /\ n[4] % 2 = 0
             IN CASE p[c] = 1 -> "o" [] p[c] = 2 -> "i" [] p[c] = 3 -> (IF first THEN "i" ELSE "o")
                  [] p[c] = 4 -> (IF first THEN "t" ELSE "i") [] p[c] = 5 -> "t"
Kd(p, n) == LET c == CHOOSE c \in 1..8 : Child[c] = n IN CASE p[c] = 1 -> "o" [] p[c] = 2 -> "i" [] OTHER -> "t"
Make(p) == [n \in { x \in AllNodes : x[2] < 2 ^ x[1] /\ x[3] < 2 ^ x[1] /\ x[4] < 2 ^ x[1] } |->
              IF n[1] = 0 THEN "t" ELSE IF n[1] = 1 THEN Kd(p, n) ELSE Low(p, n)]
Init == /\ C \in { TLCEval(Make(p)) : p \in Patterns }
        /\ T = TreeInit /\ h = << >>
Refine(mn, mx) == /\ Len(h) < Depth
                  /\ T' = TLCEval(RefineTree(C, T, mn, mx)[1])
                  /\ h' = Append(h, [mn |-> mn, mx |-> mx]) /\ C' = C
Next == \E mn \in Levels, mx \in Levels : Refine(mn, mx)
Spec == Init /\ [][Next]_vars
View == << C, T >>
Cells == { n \in DOMAIN C : n[1] = 2 }
Above(n) == Up(n) \cap T.lv
Disjoint == \A n \in T.lv : Up(n) \cap T.lv = {n}
\* every part of the solid is in exactly one leaf; nothing but the solid is kept as soon as it can be told apart
Covers == \A n \in Cells : C[n] # "o" => Cardinality(Above(n)) = 1
Drops == \A n \in T.lv : n # Root => C[n] # "o"
CutAtMaximum == \A n \in T.lv : Cls(C, n) = "t" /\ (\E x \in Kids(n) \cap DOMAIN C : C[x] # "o") => n[1] >= T.mx
UncutAtMinimum == \A n \in T.lv : C[n] = "i" => n[1] >= T.mn
NotFiner == \A n \in T.lv : n[1] > T.mn => n[1] <= T.mx /\ Cls(C, Parent(n)) = "t"
SameAsOnce == T.lv = Grow(C, Root, T.mn, T.mx)
Monotone == [][T'.mn >= T.mn /\ T'.mx >= T.mx /\ \A n \in T'.lv : Up(n) \cap T.lv # {}]_vars
RefusalKeeps == [][h'[Len(h')].mn > h'[Len(h')].mx => T' = T]_vars
=============================================================================
