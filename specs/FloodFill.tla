------------------------------- MODULE FloodFill -------------------------------
(* Classification of the cells by partitioned flood fill. The grid is cut into slabs along its longest direction (1),
   one per thread; every slab is filled on its own, its groups are appended in any order, and groups that continue over
   the cut are merged. A cell is "t" (cut by the surface), "i" or "o"; the faces between "i" and "o" lie on the surface.
   Every element of a group that faces the surface casts a vote (+1 inside, -1 outside); a group that never faces the
   surface is decided by a point test. Everything the threads may do in any order is left open here. *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS N1, N2, N3, MaxThreads, Fallback, AllWays
\* Fallback = FALSE: groups without votes count as outside (the defect found in QuESo)
\* AllWays  = FALSE: only elements at the upper end of a slab are joined with the next slab (for refutation)

Cells == (0..N1-1) \X (0..N2-1) \X (0..N3-1)
Adj(a, b) == \E k \in 1..3 : (a[k] - b[k] \in {-1, 1}) /\ \A m \in (1..3) \ {k} : a[m] = b[m]
Size(T) == (N1 + T - 1) \div T
Slab(T, c) == c[1] \div Size(T)
Slabs(T) == { Slab(T, c) : c \in Cells }

VARIABLES type, T, todo, groups, merged, cur, pc
vars == << type, T, todo, groups, merged, cur, pc >>

Open(a, b) == Adj(a, b) /\ type[a] = type[b] /\ type[a] # "t"
Surf(a, b) == Adj(a, b) /\ type[a] # "t" /\ type[a] # type[b]
Vote(a) == IF type[a] = "i" THEN 1 ELSE -1
RECURSIVE Reach(_, _)
Reach(S, within) == LET new == { b \in within \ S : \E a \in S : Open(a, b) } IN IF new = {} THEN S ELSE Reach(S \cup new, within)
RECURSIVE SumVotes(_)
SumVotes(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Vote(x[1]) + SumVotes(S \ {x})

Init == /\ type \in [Cells -> {"t", "i", "o"}]
        /\ T \in 1..MaxThreads
        /\ todo = { c \in Cells : type[c] # "t" } /\ groups = {} /\ merged = {} /\ cur = {} /\ pc = "fill"

\* a thread fills a group of its slab and appends it
Fill == /\ pc = "fill" /\ todo # {}
        /\ \E p \in { Slab(T, c) : c \in todo } :
             \* within a slab the order of the groups is that of the sweep; slabs interleave in any way
             LET mine == { c \in todo : Slab(T, c) = p }
                 first == CHOOSE c \in mine : \A d \in mine : c[1] * N2 * N3 + c[2] * N3 + c[3] <= d[1] * N2 * N3 + d[2] * N3 + d[3]
                 g == Reach({first}, mine)
                 \* votes inside the slab; faces on the cut are counted when groups are merged
                 v1 == SumVotes({ << a, b >> \in g \X Cells : Surf(a, b) /\ Slab(T, b) = p })
                 v2 == SumVotes({ << a, b >> \in g \X Cells : Surf(a, b) /\ Slab(T, b) # p })
             IN /\ groups' = groups \cup { << p, g, v1 + v2 >> }
                /\ todo' = todo \ g
        /\ UNCHANGED << type, T, merged, cur, pc >>
ToMerge == /\ pc = "fill" /\ todo = {} /\ pc' = "merge" /\ UNCHANGED << type, T, todo, groups, merged, cur >>

\* elements of a group that may continue in the next / previous slab: only those at its extreme open position
Upper(g) == LET O == { c \in g[2] : c[1] = N1 - 1 \/ \E b \in Cells : Open(c, b) /\ b[1] = c[1] + 1 }
            IN { c \in O : \A d \in O : d[1] <= c[1] }
Lower(g) == LET O == { c \in g[2] : c[1] = 0 \/ \E b \in Cells : Open(c, b) /\ b[1] = c[1] - 1 }
            IN { c \in O : \A d \in O : d[1] >= c[1] }
Up(c) == [c EXCEPT ![1] = @ + 1]
Joined(g, h) == /\ g[1] - h[1] \in {-1, 0, 1}
                /\ \/ { Up(c) : c \in { x \in Upper(g) : x[1] < N1 - 1 } } \cap Lower(h) # {}
                   \/ AllWays /\ { Up(c) : c \in { x \in Upper(h) : x[1] < N1 - 1 } } \cap Lower(g) # {}
\* cur: groups collected so far and the frontier
Start == /\ pc = "merge" /\ cur = {} /\ groups # {}
         /\ \E g \in groups : cur' = {<< g, TRUE >>} /\ groups' = groups \ {g}
         /\ UNCHANGED << type, T, todo, merged, pc >>
Expand == /\ pc = "merge"
          /\ \E x \in cur : /\ x[2]
                            /\ LET new == { h \in groups : Joined(x[1], h) }
                               IN /\ cur' = (cur \ {x}) \cup {<< x[1], FALSE >>} \cup { << h, TRUE >> : h \in new }
                                  /\ groups' = groups \ new
          /\ UNCHANGED << type, T, todo, merged, pc >>
RECURSIVE Tot(_)
Tot(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[1][3] + Tot(S \ {x})
Close == /\ pc = "merge" /\ cur # {} /\ \A x \in cur : ~x[2]
         /\ merged' = merged \cup { << UNION { x[1][2] : x \in cur }, Tot(cur) >> } /\ cur' = {}
         /\ UNCHANGED << type, T, todo, groups, pc >>
Done == /\ pc = "merge" /\ cur = {} /\ groups = {} /\ pc' = "done" /\ UNCHANGED << type, T, todo, groups, merged, cur >>
Next == Fill \/ ToMerge \/ Start \/ Expand \/ Close \/ Done
Spec == Init /\ [][Next]_vars

PointTest(c) == type[c] = "i"
StateOf(g) == IF g[2] > 0 \/ (Fallback /\ g[2] = 0 /\ PointTest(CHOOSE c \in g[1] : TRUE)) THEN "i" ELSE "o"
\* the result is the type of every cell, whatever the number of threads and the order
Correct == pc = "done" => /\ UNION { g[1] : g \in merged } = { c \in Cells : type[c] # "t" }
                          /\ \A g \in merged : \A c \in g[1] : type[c] = StateOf(g)
\* and the groups are the connected components
Components == pc = "done" => \A g \in merged : g[1] = Reach({CHOOSE c \in g[1] : TRUE}, Cells)
=============================================================================
