------------------------------- MODULE TraceD01 -------------------------------
(* D01: recorded histories of the settings and information dictionaries are behaviours of DictStore over QuESo's
   registry; after each operation every dictionary shows exactly the values of the specification. *)
EXTENDS DictStore, TraceCore
Roots == { << "S", "Settings" >>, << "M", "ModelInfo" >> }
Ran(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE FoldD(_, _, _, _, _)
FoldD(s, o, st, k, bad) ==
    IF k > Len(s.ops) THEN bad
    ELSE LET op == s.ops[k]
             b0 == Step(st, op)
             a == << IF b0[1] = st THEN st ELSE Force(b0[1]), b0[2] >>
             r == o.r[k]
             sh0 == TLCEval(IF a[1] = st THEN {} ELSE Shown(st))
             sh1 == TLCEval(IF a[1] = st THEN {} ELSE Shown(a[1]))
             b == (IF r.a \in a[2] THEN {} ELSE {"answer-of-" \o op.op})
                  \cup (IF Ran(r.add) = sh1 \ sh0 /\ Ran(r.del) = sh0 \ sh1 THEN {} ELSE {"contents-after-" \o op.op})
         IN FoldD(s, o, a[1], k + 1, bad \cup b)
D01Verdict(s, o) ==
    LET st == DictInit(Roots) IN
    IF Len(o.r) # Len(s.ops) THEN {"answers"}
    ELSE (IF Ran(o.init) = Shown(st) THEN {} ELSE {"defaults"}) \cup (IF o.unknown = 0 THEN {} ELSE {"unknown-dictionary"}) \cup FoldD(s, o, st, 1, {})
=============================================================================
