----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation.  A trace is a sequence of recorded API calls          *)
(*    [o |-> operation, a |-> argument words, r |-> result words]          *)
(* split into chunks that are consumed independently, one event per step.  *)
(* Step(e) is the conformance relation of the specification: event e is a  *)
(* transition the specification allows.  An event that is not allowed is   *)
(* reported (REJECT) and the rest of the trace is still examined.  A call  *)
(* that panicked, crashed or hung has no result (r = <<>>) and is never    *)
(* allowed: scenarios respect the documented preconditions.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ok(_, _, _),          \* the family specification's conformance relation
          Trace, NChunks        \* the recorded events, the number of chunks
VARIABLES c, i                  \* chunk, events of the chunk consumed so far

Pos(ch, n) == ch + (n - 1) * NChunks      \* position of the n-th event of chunk ch

TInit == c \in 1..NChunks /\ i = 0
Consume == /\ Pos(c, i + 1) <= Len(Trace)
           /\ LET e == Trace[Pos(c, i + 1)]
              IN  IF e.r # <<>> /\ Ok(e.o, e.a, e.r) THEN TRUE
                  ELSE PrintT(<<"REJECT", Pos(c, i + 1)>>)
           /\ i' = i + 1
           /\ c' = c
TNext == Consume
=============================================================================
