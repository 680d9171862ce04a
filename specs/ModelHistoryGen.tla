--------------------------- MODULE ModelHistoryGen ---------------------------
(* All histories of operations on a model up to a depth: the laws of composition; and samples of them for replay. *)
EXTENDS ModelHistory, TLC, Json
CONSTANTS K, Depth, MaxConds
VARIABLES m, h
vars == << m, h >>
Init == \E wr \in {TRUE, FALSE} : m = ModelInit(K, wr) /\ h = << >>
Do(op) == Len(h) < Depth /\ m' = Step(m, op)[1] /\ h' = Append(h, op)
Volume == Do([op |-> "volume"])
Cond == \E k \in 1..K : Len(m.conds) < MaxConds /\ Do([op |-> "cond", k |-> k])
Cond2 == m.vol /\ Cond
BadCond == Do([op |-> "badcond"])
All == (m.vol \/ Len(m.conds) + K <= MaxConds) /\ Do([op |-> "all"])
WriteIt == Do([op |-> "write"])
Move == Do([op |-> "move"])
Snap == Do([op |-> "snap"])
FilesOp == Do([op |-> "files"])
Next == Volume \/ Cond \/ Cond2 \/ BadCond \/ All \/ WriteIt \/ Move \/ Snap \/ FilesOp
Spec == Init /\ [][Next]_vars
View == m
Last == h[Len(h)]
Ans == Step(m, Last')[2]
TypeOK == \A i \in 1..Len(m.conds) : m.conds[i] \in 1..K
ConditionsNeedTheVolume == Len(m.conds) > 0 => m.vol
NothingWrittenWhenOff == ~m.wr => ~m.written /\ m.wconds = {}
WrittenWereThere == m.wconds \subseteq { m.conds[i] : i \in 1..Len(m.conds) }
RefusalChangesNothing == [][Ans = -1 => m' = m]_vars
VolumeOnce == [][m.vol => m'.vol]_vars
EarlierConditionsStay == [][SubSeq(m'.conds, 1, Len(m.conds)) = m.conds]_vars
\* composition: creating everything is creating the volume, the conditions in order, and writing
OneByOne == LET a == Step(ModelInit(K, m.wr), [op |-> "volume"])[1]
            IN Write(AddConds(a, 1)) = Step(ModelInit(K, m.wr), [op |-> "all"])[1]
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([wr |-> m.wr, ops |-> h]))
=============================================================================
