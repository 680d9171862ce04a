------------------------------ MODULE BufWriterGen ------------------------------
(* All histories of the buffered writer up to Depth operations: nothing is lost, repeated or reordered, the buffer  *)
(* never grows beyond its capacity, and a flush leaves nothing behind.                                              *)
EXTENDS BufWriter, FiniteSets, TLC, Json

CONSTANTS Depth, Caps, RawSizes, ValSizes, Broken
VARIABLES cap, big, st, log, h

vars == << cap, big, st, log, h >>
\* operation number k writes bytes that name it
By(k, z) == [j \in 1..z |-> (k * 16 + j) % 256]
Ops(k) == {[op |-> "raw", b |-> By(k, z)] : z \in RawSizes} \cup {[op |-> "val", b |-> By(k, z)] : z \in ValSizes}
          \cup {[op |-> "arr", b |-> By(k, 3 * z)] : z \in ValSizes} \cup {[op |-> "flush", b |-> << >>]}
Init == cap \in Caps /\ big \in BOOLEAN /\ st = WInit /\ log = << >> /\ h = << >>
\* a writer that hands large data to the file before what is still in the buffer
Wrong(s, op) == IF op.op = "raw" /\ Len(op.b) > cap THEN [out |-> s.out \o op.b, buf |-> s.buf] ELSE WStep(s, op, cap, big)
Next == /\ Len(h) < Depth
        /\ \E op \in Ops(Len(h) + 1) :
             /\ st' = (IF Broken THEN Wrong(st, op) ELSE WStep(st, op, cap, big))
             /\ log' = log \o Bytes(op, big)
             /\ h' = Append(h, op)
        /\ UNCHANGED << cap, big >>
Spec == Init /\ [][Next]_vars
NothingLost == st.out \o st.buf = log
Bounded == Len(st.buf) <= cap
FlushedAll == (h # << >> /\ h[Len(h)].op = "flush") => st.out = log
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([ops |-> h, cap |-> cap, big |-> IF big THEN 1 ELSE 0]))
=============================================================================
