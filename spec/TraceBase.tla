----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Conformance of recorded executions of the real code.  A trace is a      *)
(* sequence of records [op, a, x, r]: the operation, its arguments, how    *)
(* the call ended ("" = returned) and its reply.  Accepts(rec) says that   *)
(* the specification allows this reply in this scene.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Accepts(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos, refused
tvars == <<pos, refused>>

TInit == pos = 1 /\ refused = 0
Consume == LET ok == Trace[pos].x = "" /\ Accepts(Trace[pos])
           IN  \* a refused record has no step in the specification: report it and go on with the next one
               /\ IF ok THEN TRUE ELSE PrintT(<<"NONCONFORMING", pos>>)
               /\ pos' = pos + 1
               /\ refused' = IF ok THEN refused ELSE refused + 1
TNext == pos <= Len(Trace) /\ Consume
TSpec == TInit /\ [][TNext]_tvars
\* every record was consumed
TraceConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
