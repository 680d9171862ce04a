------------------------------- MODULE TraceD02 -------------------------------
(* D02: histories of settings that pass through their JSON form, unchanged or with one entry changed, are behaviours of
   DictStore: what is written is the dictionary (well formed, every key once, ten significant digits), what is read is
   what was written, and an entry that does not belong there is refused. *)
EXTENDS DictStore, TraceCore
Roots == { << "S", "Settings" >>, << "M", "ModelInfo" >> }
Ran(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE FoldD(_, _, _, _, _)
FoldD(s, o, st, k, bad) ==
    IF k > Len(s.ops) THEN bad
    ELSE LET op == s.ops[k]
             b0 == Step(st, op)
             same == b0[1] = st
             a == << IF same THEN st ELSE Force(b0[1]), b0[2] >>
             r == o.r[k]
             sh0 == TLCEval(IF same THEN {} ELSE Shown(st))
             sh1 == TLCEval(IF same THEN {} ELSE Shown(a[1]))
             b == (IF r.a \in a[2] THEN {} ELSE {"answer-of-" \o op.op})
                  \cup (IF Ran(r.add) = sh1 \ sh0 /\ Ran(r.del) = sh0 \ sh1 THEN {} ELSE {"contents-after-" \o op.op})
                  \cup (IF op.op = "json" /\ r.a = Done /\ (Ran(r.doc) # Doc(st, op.n) \/ Len(r.doc) # Cardinality(Ran(r.doc))) THEN {"written"} ELSE {})
         IN FoldD(s, o, a[1], k + 1, bad \cup b)
D02Verdict(s, o) ==
    LET st == Force(DictInit(Roots)) IN
    IF Len(o.r) # Len(s.ops) THEN {"answers"}
    ELSE (IF Ran(o.init) = Shown(st) THEN {} ELSE {"defaults"}) \cup (IF o.unknown = 0 THEN {} ELSE {"unknown-dictionary"}) \cup FoldD(s, o, st, 1, {})
=============================================================================
