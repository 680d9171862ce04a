------------------------------ MODULE PyLifeGen ------------------------------
(* All programs of Depth operations over K variables: what a variable refers to is usable.                          *)
EXTENDS PyLife, Json

CONSTANTS K, Depth, MaxRoots, Weaken
VARIABLES st, h
vars == << st, h >>

Init == st = Empty(K) /\ h = << >>
Kind(i) == IF st.s[i] = 0 THEN "none" ELSE st.o[st.s[i]].k
Free == { i \in 1..K : st.s[i] = 0 }
\* results go to the first free variable, or replace the one they come from
Dest(i) == (IF Free = {} THEN {} ELSE {CHOOSE j \in Free : \A k \in Free : j <= k}) \cup (IF i = 0 THEN {} ELSE {i})
Op(o, d, s, k, i, c) == [op |-> o, d |-> d, s |-> s, k |-> k, i |-> i, c |-> c]
\* what is forgotten if one kind of object does not keep its parent
Weak(s2) == IF Weaken = "" \/ Len(s2.o) = 0 THEN s2
            ELSE LET n == Len(s2.o) IN
                 CASE Weaken = "H" -> [s2 EXCEPT !.o = [j \in 1..n |-> IF s2.o[j].k = "H" THEN [s2.o[j] EXCEPT !.keeps = {}] ELSE s2.o[j]]]
                   [] Weaken = s2.o[n].k -> [s2 EXCEPT !.o[n].keeps = {}]
                   [] OTHER -> s2
Do(op) == st' = Weak(Step(st, op)[1]) /\ h' = Append(h, op)
Next == /\ Len(h) < Depth
        /\ \/ st.n < MaxRoots /\ \E d \in Dest(0), o \in {"model", "holder", "entry"}, c \in 1..2 : Do(Op(o, d, 0, "", 0, c))
           \/ \E i \in 1..K : st.s[i] # 0 /\ Do(Op("drop", i, 0, "", 0, 0))
           \/ \E i \in 1..K : Kind(i) \in Shows /\ Do(Op("use", 0, i, "", 0, 0))
           \/ \E i \in 1..K : Kind(i) = "H" /\ \E d \in Dest(i) : Do(Op("make", d, i, "", 0, 0))
           \/ \E i, j \in 1..K : Kind(i) = "L" /\ Kind(j) = "K" /\ st.o[st.s[i]].home % 3 = 1 /\ Do(Op("append", j, i, "", 0, 0))
           \/ \E i \in 1..K : HasKids(Kind(i)) /\ \E row \in Kids[Kind(i)], d \in Dest(i) :
                 /\ ~(Kind(i) \in Iterators /\ st.o[st.s[i]].cnt > 0)
                 /\ \E x \in (IF row.k \in Indexed /\ Kind(i) \notin Iterators THEN 0..1 ELSE {0}) : Do(Op("get", d, i, row.k, x, 0))
Spec == Init /\ [][Next]_vars
View == [o |-> { [k |-> st.o[j].k, keeps |-> st.o[j].keeps, id |-> j] : j \in There(st) }, s |-> st.s, w |-> st.w, x |-> [j \in There(st) |-> [st.o[j] EXCEPT !.path = ""]], d |-> Len(h)]
AlwaysUsable == Usable(st)
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([ops |-> h]))
=============================================================================
