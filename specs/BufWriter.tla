------------------------------- MODULE BufWriter -------------------------------
(* The buffered binary writer: what is in the file and what is still in the buffer after a sequence of writes.      *)
(* Values are given by their bytes in native (little endian) order.                                                 *)
EXTENDS Integers, Sequences

Reverse(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
WInit == [out |-> << >>, buf |-> << >>]
Flushed(st) == [out |-> st.out \o st.buf, buf |-> << >>]
AppendTo(st, b, cap) ==
    IF Len(b) > cap THEN [out |-> Flushed(st).out \o b, buf |-> << >>]
    ELSE LET s1 == IF Len(st.buf) + Len(b) > cap THEN Flushed(st) ELSE st
         IN [s1 EXCEPT !.buf = @ \o b]
Value(st, b, cap, big) == AppendTo(st, IF big THEN Reverse(b) ELSE b, cap)
\* an array of three values
Arr(st, b, cap, big) == LET z == Len(b) \div 3
                            p(i) == SubSeq(b, i * z + 1, (i + 1) * z)
                        IN Value(Value(Value(st, p(0), cap, big), p(1), cap, big), p(2), cap, big)
WStep(st, op, cap, big) == CASE op.op = "raw" -> AppendTo(st, op.b, cap)
                             [] op.op = "val" -> Value(st, op.b, cap, big)
                             [] op.op = "arr" -> Arr(st, op.b, cap, big)
                             [] op.op = "flush" -> Flushed(st)
\* the bytes an operation adds to the file, sooner or later
Bytes(op, big) == CASE op.op = "raw" -> op.b
                    [] op.op = "val" -> IF big THEN Reverse(op.b) ELSE op.b
                    [] op.op = "arr" -> LET z == Len(op.b) \div 3
                                            p(i) == IF big THEN Reverse(SubSeq(op.b, i * z + 1, (i + 1) * z)) ELSE SubSeq(op.b, i * z + 1, (i + 1) * z)
                                        IN p(0) \o p(1) \o p(2)
                    [] op.op = "flush" -> << >>
=============================================================================
