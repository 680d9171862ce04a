------------------------------- MODULE TraceG02 -------------------------------
(* G02: recorded histories of the element store are behaviours of ElementStore. *)
EXTENDS ElementStore, TraceCore

Set(r) == { r[k] : k \in 1..Len(r) }
Agrees(op, want, got) == IF op.op = "list" THEN Set(got) = want /\ Len(got) = Cardinality(want) ELSE got = want
RECURSIVE Fold(_, _, _, _, _)
Fold(st, ops, r, k, bad) ==
    IF k > Len(ops) THEN bad
    ELSE LET a == TLCEval(Apply(st, ops[k]))
         IN Fold(a[1], ops, r, k + 1, IF Agrees(ops[k], a[2], r[k]) THEN bad ELSE bad \cup { "answer-of-" \o ops[k].op })
\* several threads adding: every id that is tried is added exactly once, with the kind of the attempt that succeeded
RaceVerdict(s, o) ==
    LET tries == { << t, k >> : t \in 1..Len(s.threads), k \in 1..12 } \cap UNION { { << t, k >> : k \in 1..Len(s.threads[t]) } : t \in 1..Len(s.threads) }
        Id(x) == s.threads[x[1]][x[2]][1]
        Kd(x) == s.threads[x[1]][x[2]][2]
        R(x) == o.r[x[1]][x[2]]
        won == { x \in tries : R(x) = 1 }
        ids == { Id(x) : x \in tries }
        want == { 10 * Id(x) + Kd(x) : x \in won }
    IN UNION {
        IF \A x \in tries : R(x) \in {1, -1} THEN {} ELSE {"answers"},
        IF \A i \in ids : Cardinality({ x \in won : Id(x) = i }) = 1 THEN {} ELSE {"added-exactly-once"},
        IF Set(o.list) = want /\ Len(o.list) = Cardinality(want) THEN {} ELSE {"contents"},
        IF \A i \in 1..Len(o.get) : o.get[i] = (IF \E x \in won : Id(x) = i THEN << Kd(CHOOSE x \in won : Id(x) = i), i >> ELSE << 0, 0 >>)
        THEN {} ELSE {"lookup"} }
G02Verdict(s, o) == IF s.ev = "storerace" THEN RaceVerdict(s, o)
                    ELSE IF Len(o.r) # Len(s.ops) THEN {"answers"} ELSE Fold(StoreInit(s.n), s.ops, o.r, 1, {})
=============================================================================
