------------------------------- MODULE TraceC01 -------------------------------
(* C01: classification and element creation agree with the exact cell volumes. *)
EXTENDS Lattice, TraceCore

C01Verdict(s, o) ==
    LET U == LU(s)
        n == s.n
        V == TLCEval(CellVols(s, n, U))
        Cls == TLCEval([i \in CellSet(n) |-> ClassOf(V[i], U)])
        untr == { o.untr[k] : k \in 1..Len(o.untr) }
        trim == { o.trim[k] : k \in 1..Len(o.trim) }
    IN UNION {
        IF Len(o.cls) = NumCells(n) THEN {} ELSE {"one-state-per-cell"},
        IF Len(o.cls) = NumCells(n) /\ \E i \in CellSet(n) : Cls[i] = "i" /\ o.cls[i + 1] # "i" THEN {"inside-cells"} ELSE {},
        IF Len(o.cls) = NumCells(n) /\ \E i \in CellSet(n) : Cls[i] = "o" /\ o.cls[i + 1] # "o" THEN {"outside-cells"} ELSE {},
        IF Len(o.cls) = NumCells(n) /\ \E i \in CellSet(n) : Cls[i] = "t" /\ o.cls[i + 1] # "t" THEN {"trimmed-cells"} ELSE {},
        IF untr = { i + 1 : i \in { j \in CellSet(n) : Cls[j] = "i" } } THEN {} ELSE {"untrimmed-elements"},
        IF trim \subseteq { i + 1 : i \in { j \in CellSet(n) : Cls[j] = "t" } } THEN {} ELSE {"trimmed-elements-only-in-trimmed-cells"},
        \* a trimmed cell whose solid part is well above the minimum volume ratio has an element (elements with a flawed
        \* surface may be neglected: not required where more than two facets share an edge)
        IF \/ "mani" \in DOMAIN s /\ s.mani = 0
           \/ \A i \in CellSet(n) : Cls[i] = "t" /\ 24 * V[i] >= FullVol6(U) => i + 1 \in trim THEN {} ELSE {"trimmed-element-missing"},
        IF Cardinality(untr) = Len(o.untr) /\ Cardinality(trim) = Len(o.trim) /\ untr \cap trim = {} THEN {} ELSE {"elements-unique"}
       }
=============================================================================
