------------------------------ MODULE TraceCore ------------------------------
(* Acceptance of recorded observations. Each line of the trace is one complete behaviour of the implementation      *)
(* (scenario s, observation o); Verdict(s, o) is the set of clauses of the specification the observation breaks.    *)
(* The trace is consumed to its end so that every rejected line is reported, and the postcondition accepts only a   *)
(* trace without a rejected line.                                                                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_, _)

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, nbad

TraceInit == l = 1 /\ nbad = 0

(* An observation of a crash, a hang or an unexpected exception never conforms. *)
Judge(t) == IF t.o.st # "ok" /\ ~("mayfail" \in DOMAIN t.s) THEN {"no-" \o t.o.st} ELSE Verdict(t.s, t.o)

Consume == /\ l <= Len(Trace)
           /\ LET v == Judge(Trace[l])
              IN /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
                 /\ (v # {}) => PrintT("BAD " \o ToJson([l |-> l, v |-> v]))
           /\ l' = l + 1

TraceSpec == TraceInit /\ [][Consume]_<<l, nbad>>

AllConsumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1))
               /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
