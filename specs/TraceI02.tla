------------------------------- MODULE TraceI02 -------------------------------
(* I02: the files written for a model contain its entities; the buffered writer writes what BufWriter says.          *)
EXTENDS VtkFile, BufWriter, BigFile, TraceCore

AbsI(x) == IF x < 0 THEN -x ELSE x
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AbsI(a[i] - b[i]) <= tol
NearTris(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
OneFile(s, o, r) == LET tag == r.kind \o "-" \o r.how \o ":" IN { tag \o x : x \in
    CASE r.kind = "elements" -> WellFormed(r, 8) \cup UNION {
           IF r.pd = -1 THEN {} ELSE {"point-data"},
           IF r.differ = 0 THEN {} ELSE {"values"},
           IF Len(r.e) = Len(o.me) /\ Range(r.e) = { Hexa(q, s.U) : q \in Range(o.me) } THEN {} ELSE {"elements"} }
      [] r.kind = "points" -> WellFormed(r, 1) \cup UNION {
           IF r.pd = r.np /\ r.np = Len(o.mp) THEN {} ELSE {"point-data"},
           IF r.differ = 0 THEN {} ELSE {"values"},
           IF r.e = o.mp THEN {} ELSE {"points"} }
      [] r.kind = "mesh" -> WellFormed(r, 3) \cup UNION {
           IF r.pd = -1 THEN {} ELSE {"point-data"},
           IF r.differ = 0 THEN {} ELSE {"values"},
           IF NearTris(r.t, o.mm, 1) THEN {} ELSE {"triangles"} }
      [] r.kind = "meshstl" -> UNION {
           IF r.ok = 1 THEN {} ELSE {"stl-structure"},
           IF r.n = Len(o.mm) THEN {} ELSE {"stl-count"},
           IF r.differ = 0 THEN {} ELSE {"values"},
           IF NearTris(r.t, o.mm, 10) THEN {} ELSE {"triangles"} }
      [] r.kind = "cond" -> UNION {
           IF r.ok = 1 THEN {} ELSE {"stl-structure"},
           IF r.n = Len(o.mc[r.k]) THEN {} ELSE {"stl-count"},
           IF r.differ = 0 THEN {} ELSE {"values"},
           IF NearTris(r.t, o.mc[r.k], 10) THEN {} ELSE {"triangles"} } }
Encoding(r) == \/ r.kind \in {"cond", "meshstl"}
               \/ r.bin = (IF r.how = "ascii" THEN 0 ELSE 1)
Kinds(s, how) == IF how = "model" THEN (IF s.write THEN 2 + Len(s.conds) ELSE 0) ELSE 4 + Len(s.conds)
FilesVerdict(s, o) == UNION {
    IF Range(o.files) \ {"out"} = FilesOf(s.write, s.ids) THEN {} ELSE {"set-of-files"},
    IF s.write /\ o.info # 1 THEN {"model-info"} ELSE {},
    UNION { OneFile(s, o, o.out[i]) : i \in 1..Len(o.out) },
    IF \A i \in 1..Len(o.out) : Encoding(o.out[i]) THEN {} ELSE {"encoding"},
    IF \A how \in {"model", "binary", "ascii"} : Cardinality({ i \in 1..Len(o.out) : o.out[i].how = how }) = Kinds(s, how) THEN {} ELSE {"files-written"},
    IF \A i \in 1..Len(o.err) : o.err[i] = 1 THEN {} ELSE {"unwritable-not-reported"} }

RECURSIVE BufFold(_, _, _, _)
BufFold(s, o, st, k) ==
    IF k > Len(s.ops) THEN (IF o.end = Flushed(st).out THEN {} ELSE {"bytes-of-the-file"})
    ELSE LET st1 == TLCEval(WStep(st, s.ops[k], s.cap, s.big = 1))
         IN (IF s.ops[k].op = "flush" /\ o.at[k] # st1.out THEN {"bytes-after-flush"} ELSE {}) \cup BufFold(s, o, st1, k + 1)
I02Verdict(s, o) == CASE s.ev = "bufw" -> IF Len(o.at) # Len(s.ops) THEN {"answers"} ELSE BufFold(s, o, WInit, 1)
                      [] s.ev = "bigfile" -> BigVerdict(s, o)
                      [] OTHER -> FilesVerdict(s, o)
=============================================================================
