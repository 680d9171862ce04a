------------------------------- MODULE TraceC03 -------------------------------
(* C03: point and box queries. *)
EXTENDS TriBox, TraceCore

\* sign patterns of infinitesimal perturbations
Eps == { <<a, b, c>> : a \in {-1, 1}, b \in {-1, 1}, c \in {-1, 1} }
\* "i", "o", or "s" (on the surface or in its closure: the property does not speak about such points)
PointState(s, p) ==
    IF Kind(s) = "kuhn" THEN (IF InKuhn(s, p, s.Q) THEN "i" ELSE "o")
    ELSE LET ins == { e \in Eps : InBoxBody(s, << 2 * p[1] + e[1], 2 * p[2] + e[2], 2 * p[3] + e[3] >>, 2 * s.Q) }
         IN IF ins = Eps THEN "i" ELSE IF ins = {} THEN "o" ELSE "s"

BoxState(s, b) ==
    LET full == (b[2][1] - b[1][1]) * (b[2][2] - b[1][2]) * (b[2][3] - b[1][3])
        v == IF Kind(s) = "kuhn"
             THEN KuhnVol6(s, [a \in Ax |-> b[1][a] \div s.Q], [a \in Ax |-> b[2][a] \div s.Q])
             ELSE BoxBodyVol(s, b[1], b[2], s.Q)
        f == IF Kind(s) = "kuhn" THEN (full \div (s.Q * s.Q * s.Q)) * 6 ELSE full
    IN IF v = 0 THEN "o" ELSE IF v = f THEN "i" ELSE "t"

C03Verdict(s, o) ==
    LET nt == Len(o.tris)
        \* a large mesh is judged by some of its triangles, whose coordinates are finer
        large == "fine" \in DOMAIN s
        m == IF large THEN 2 ^ s.fine ELSE 1
        Fine(p) == [a \in Ax |-> m * p[a]]
        Hit(b) == { t \in 0..(nt - 1) : TriMeetsOpenBox(o.tris[t + 1], Fine(b[1]), Fine(b[2])) }
    IN UNION {
        IF \A k \in 1..Len(s.pts) : LET q == PointState(s, s.pts[k]) IN q = "s" \/ (q = "i") = (o.in[k] = 1)
            THEN {} ELSE {"point-inside"},
        IF \A k \in 1..Len(s.boxes) : BoxState(s, s.boxes[k]) = o.box[k].st THEN {} ELSE {"box-state"},
        IF \A k \in 1..Len(s.boxes) : LET h == TLCEval(Hit(s.boxes[k]))
                                          ids == { o.box[k].ids[j] : j \in 1..Len(o.box[k].ids) }
                                      IN h = ids /\ Cardinality(ids) = Len(o.box[k].ids) /\ /\ o.box[k].dup = 0
                                         /\ (IF large THEN o.box[k].n > 0 ELSE h # {}) = (o.box[k].tr = 1)
                                         /\ (large => (o.box[k].tr = 1) = (o.box[k].st = "t"))
            THEN {} ELSE {"intersected-triangles"}
       }
=============================================================================
