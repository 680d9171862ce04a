------------------------------- MODULE TraceM01 -------------------------------
(* M01: the model information accounts for the elements and conditions of the model. *)
EXTENDS Lattice, TraceCore

Near(a, b, t) == Abs(a - b) <= t
M01Verdict(s, o) ==
    LET E == 1..Len(o.el)
        T == { k \in E : o.el[k][2] = 1 }
        F == E \ T
        np(K) == Sum(K, LAMBDA k : o.el[k][3])
        vol == Sum(E, LAMBDA k : o.el[k][4])
        i == o.info
    IN UNION {
        IF i.closed = 1 THEN {} ELSE {"is-closed"},
        IF Near(i.volume, 1000 * BodyVol6(s), 2) THEN {} ELSE {"geometry-volume"},
        IF i.active = Len(o.el) THEN {} ELSE {"active"},
        IF i.trimmed = Cardinality(T) THEN {} ELSE {"trimmed"},
        IF i.full = Cardinality(F) THEN {} ELSE {"full"},
        IF i.inactive = NumCells(s.n) - Len(o.el) THEN {} ELSE {"inactive"},
        IF i.points = np(E) THEN {} ELSE {"number-of-points"},
        IF Near(i.rep, vol, 1 + Len(o.el)) /\ Near(i.rep, o.tot.rep, 1) THEN {} ELSE {"represented-volume"},
        IF Near(i.perc, o.tot.perc, 1) THEN {} ELSE {"percentage"},
        IF (IF F = {} THEN i.ppf = 0 ELSE Near(i.ppf * Cardinality(F), 10000 * np(F), Cardinality(F))) THEN {} ELSE {"points-per-full-element"},
        IF (IF T = {} THEN i.ppt = 0 ELSE Near(i.ppt * Cardinality(T), 10000 * np(T), Cardinality(T))) THEN {} ELSE {"points-per-trimmed-element"},
        IF o.ninfos = Len(s.conds) /\ Len(o.conds) = Len(s.conds) THEN {} ELSE {"one-record-per-condition"},
        IF \A k \in 1..MinI(Len(o.conds), Len(s.conds)) :
               o.conds[k].id = s.conds[k].id /\ o.conds[k].iid = s.conds[k].id /\ o.conds[k].own = 1 THEN {} ELSE {"condition-records-in-order"},
        IF \A k \in 1..Len(o.conds) : o.conds[k].area = 1000000 /\ Near(o.conds[k].perc, o.conds[k].share, 1) THEN {} ELSE {"condition-area"},
        IF o.unchanged = 1 THEN {} ELSE {"inputs-unchanged"}
       }
=============================================================================
