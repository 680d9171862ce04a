----------------------------- MODULE ModelHistory -----------------------------
(* An embedded model under any history of operations. The state is what the model contains: whether it has its volume,
   which conditions in which order, and what was written. K is the number of conditions in the settings, wr whether
   output is switched on. Answers: 1 done, -1 refused (nothing changed). *)
EXTENDS Integers, Sequences, FiniteSets

ModelInit(K, wr) == [ K |-> K, wr |-> wr, vol |-> FALSE, conds |-> << >>, written |-> FALSE, wconds |-> {} ]
AddVolume(m) == [m EXCEPT !.vol = TRUE]
AddCond(m, k) == [m EXCEPT !.conds = Append(@, k)]
Write(m) == IF ~m.wr THEN m ELSE [m EXCEPT !.written = TRUE, !.wconds = @ \cup { m.conds[i] : i \in 1..Len(m.conds) }]
RECURSIVE AddConds(_, _)
AddConds(m, k) == IF k > m.K THEN m ELSE AddConds(AddCond(m, k), k + 1)
Step(m, op) ==
    CASE op.op = "volume" -> IF m.vol THEN << m, -1 >> ELSE << AddVolume(m), 1 >>
      [] op.op = "cond" -> IF m.vol THEN << AddCond(m, op.k), 1 >> ELSE << m, -1 >>
      [] op.op = "badcond" -> << m, -1 >>
      [] op.op = "all" -> IF m.vol THEN << m, -1 >> ELSE << Write(AddConds(AddVolume(m), 1)), 1 >>
      [] op.op = "write" -> << Write(m), 1 >>
      [] op.op \in {"move", "snap", "files"} -> << m, 1 >>
=============================================================================
