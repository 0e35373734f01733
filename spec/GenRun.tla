------------------------------- MODULE GenRun -------------------------------
(* Writes the scenarios of a plan, one file per chunk, in parallel. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Plan(_),              \* property -> sequence of <<operation, number of scenarios>>
          Scen(_, _)            \* (operation, k) -> argument words of its k-th scenario
VARIABLES c, i
Plans    == JsonDeserialize(IOEnv.GEN_PLANS)
RECURSIVE Joined(_)
Joined(n) == IF n > Len(Plans) THEN <<>> ELSE Plan(Plans[n]) \o Joined(n + 1)
GP       == Joined(1)
Chunks   == atoi(IOEnv.GEN_CHUNKS)
Mine(op, n, ch) == LET m == (n + Chunks - ch) \div Chunks       \* k = ch-1, ch-1+Chunks, ...
                   IN  [q \in 1..m |-> [o |-> op, a |-> Scen(op, (ch - 1) + (q - 1) * Chunks)]]
RECURSIVE All(_, _)
All(p, ch) == IF p > Len(GP) THEN <<>> ELSE Mine(GP[p][1], GP[p][2], ch) \o All(p + 1, ch)
GInit == c \in 1..Chunks /\ i = 0
GNext == /\ i = 0
         /\ ndJsonSerialize(IOEnv.GEN_OUT \o ToString(c) \o ".ndjson", All(1, c))
         /\ i' = 1
         /\ c' = c
=============================================================================
