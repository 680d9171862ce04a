------------------------------- MODULE StlParse -------------------------------
(* The line-by-line reader of ASCII STL files as a state machine, run on every file of up to MaxT triangles with    *)
(* every single damage of the listed kinds. A line is modelled by the keywords it contains, its first word and the  *)
(* corner it holds (None = no readable corner).                                                                        *)
EXTENDS StlFile, FiniteSets, TLC

CONSTANTS MaxT,        \* triangles
          Damages,     \* number of damages one file suffers
          CheckVertex, \* the reader checks that a vertex line is one and is readable
          SkipFirst    \* the reader skips the line with the name of the solid

None == << >>
Ln(has, first, v) == [has |-> has, first |-> first, v |-> v]
Solid(named) == Ln({"solid"} \cup (IF named THEN {"facet"} ELSE {}), "solid", None)
Block(t) == << Ln({"facet"}, "facet", None), Ln({"outer"}, "outer", None),
               Ln({}, "vertex", << t, 1 >>), Ln({}, "vertex", << t, 2 >>), Ln({}, "vertex", << t, 3 >>),
               Ln({"endloop"}, "endloop", None), Ln({"facet", "endfacet"}, "endfacet", None) >>
RECURSIVE Blocks(_, _)
Blocks(t, n) == IF t > n THEN << >> ELSE Block(t) \o Blocks(t + 1, n)
File(n, named) == << Solid(named) >> \o Blocks(1, n) \o << Ln({"solid", "endsolid"}, "endsolid", None) >>
Written(n) == [t \in 1..n |-> << << t, 1 >>, << t, 2 >>, << t, 3 >> >>]

Del(f, i) == SubSeq(f, 1, i - 1) \o SubSeq(f, i + 1, Len(f))
Dup(f, i) == SubSeq(f, 1, i) \o SubSeq(f, i, Len(f))
Junk == Ln({}, "junk", None)
Merge(f, i) == SubSeq(f, 1, i - 1) \o << Ln(f[i].has \cup f[i+1].has, f[i].first, f[i].v) >> \o SubSeq(f, i + 2, Len(f))
Put(f, i, x) == [f EXCEPT ![i] = x]

VARIABLES f, T, kind, n, pc, pos, line, tri, M
vars == << f, T, kind, n, pc, pos, line, tri, M >>
EmptyLine == Ln({}, "", None)

Init == /\ \E t \in 0..MaxT, named \in BOOLEAN : f = File(t, named) /\ T = Written(t)
        /\ kind = "none" /\ n = 0 /\ pc = "damage" /\ pos = 1 /\ line = EmptyLine /\ tri = << >> /\ M = << >>

Damage(k, g) == f' = g /\ kind' = (IF kind = "none" THEN k ELSE "several") /\ n' = n + 1
                /\ UNCHANGED << T, pc, pos, line, tri, M >>
DoDamage == /\ pc = "damage" /\ n < Damages
            /\ \E i \in 1..Len(f) :
                 \/ Damage("trunc", SubSeq(f, 1, i - 1))
                 \/ Damage("line", Del(f, i))
                 \/ Damage("line", Dup(f, i))
                 \/ Damage("line", Put(f, i, Junk))
                 \/ i < Len(f) /\ Damage("byte", Merge(f, i))
                 \* a byte inside a line: a keyword is lost, the corner moves or becomes unreadable
                 \/ \E w \in f[i].has : Damage("byte", Put(f, i, [f[i] EXCEPT !.has = @ \ {w}]))
                 \/ Damage("byte", Put(f, i, [f[i] EXCEPT !.first = "junk"]))
                 \/ f[i].v # None /\ Damage("byte", Put(f, i, [f[i] EXCEPT !.v = << 0, 0 >>]))
                 \/ f[i].v # None /\ Damage("byte", Put(f, i, [f[i] EXCEPT !.v = None]))
Start == pc = "damage" /\ pc' = (IF SkipFirst THEN "first" ELSE "seek") /\ UNCHANGED << f, T, kind, n, pos, line, tri, M >>

\* the next line, or the end of the file
Eof == pos > Len(f)
Cur == IF Eof THEN EmptyLine ELSE f[pos]
Goto(p) == pc' = p /\ UNCHANGED << f, T, kind, n >>
First == pc = "first" /\ pos' = pos + 1 /\ Goto("seek") /\ UNCHANGED << line, tri, M >>
Seek == /\ pc = "seek" /\ line' = Cur /\ pos' = pos + 1
        /\ Goto(IF Eof \/ "facet" \in Cur.has THEN "top" ELSE "seek") /\ UNCHANGED << tri, M >>
Top == /\ pc = "top"
       /\ IF "endsolid" \in line.has THEN Goto("done") /\ UNCHANGED << pos, line >>
          ELSE IF "facet" \in line.has THEN Goto("outer") /\ UNCHANGED << pos, line >>
          ELSE IF Eof THEN Goto("done") /\ UNCHANGED << pos, line >>
          ELSE Goto("top") /\ line' = Cur /\ pos' = pos + 1
       /\ UNCHANGED << tri, M >>
Expect(p, w, q) == /\ pc = p /\ pos' = pos + 1 /\ line' = Cur
                   /\ Goto(IF ~Eof /\ w \in Cur.has THEN q ELSE "err")
Outer == Expect("outer", "outer", "corner") /\ tri' = << >> /\ UNCHANGED M
Corner == /\ pc = "corner" /\ pos' = pos + 1 /\ line' = Cur
          /\ IF Eof \/ (CheckVertex /\ (Cur.first # "vertex" \/ Cur.v = None)) THEN Goto("err") /\ UNCHANGED tri
             ELSE tri' = Append(tri, Cur.v) /\ Goto(IF Len(tri) = 2 THEN "endloop" ELSE "corner")
          /\ UNCHANGED M
EndLoop == Expect("endloop", "endloop", "endfacet") /\ M' = Append(M, tri) /\ UNCHANGED tri
EndFacet == /\ pc = "endfacet" /\ ~(~Eof /\ "endfacet" \in Cur.has) /\ Goto("err") /\ UNCHANGED << pos, line, tri, M >>
EndFacet2 == /\ pc = "endfacet" /\ ~Eof /\ "endfacet" \in Cur.has
             /\ IF pos + 1 > Len(f) THEN Goto("done") /\ UNCHANGED << pos, line >>
                ELSE Goto("top") /\ line' = f[pos + 1] /\ pos' = pos + 2
             /\ UNCHANGED << tri, M >>
Next == DoDamage \/ Start \/ First \/ Seek \/ Top \/ Outer \/ Corner \/ EndLoop \/ EndFacet \/ EndFacet2
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ First \/ Seek \/ Top \/ Outer \/ Corner \/ EndLoop \/ EndFacet \/ EndFacet2)

\* the reader never yields an incomplete triangle or a corner that was not read
Complete == pc = "done" => \A i \in 1..Len(M) : Len(M[i]) = 3 /\ \A k \in 1..3 : M[i][k] # None
Faithful == pc = "done" /\ n <= 1 => MayRead(kind, T, M)
Accepts == pc = "err" => MayRefuse(kind)
\* the reader ends
Ends == <>(pc \in {"done", "err"})
=============================================================================
