----------------------------- MODULE SceneTrace -----------------------------
(***************************************************************************)
(* Validation of recorded scenes, instruction by instruction; the memory   *)
(* at the end of the run, and of a second run from the same start, has to  *)
(* be the one the specification arrived at.                                *)
(***************************************************************************)
EXTENDS Scene, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NChunks == atoi(IOEnv.TRACE_CHUNKS)
VARIABLES c, i, pc, q          \* chunk, scenes consumed, instruction (0: not loaded), result words consumed
Pos == c + i * NChunks
E == Trace[Pos]
Ins(n) == SubSeq(E.a, NMem + InsLen * (n - 1) + 1, NMem + InsLen * n)
NIns == (Len(E.a) - NMem) \div InsLen
TInit == c \in 1..NChunks /\ i = 0 /\ pc = 0 /\ q = 0 /\ mem = <<>>
Begin == pc = 0 /\ mem' = SubSeq(E.a, 1, NMem) /\ pc' = 1 /\ q' = 0 /\ UNCHANGED <<c, i>>
Next1 == mem' = <<>> /\ pc' = 0 /\ q' = 0 /\ i' = i + 1 /\ c' = c
Reject(what) == PrintT(<<"REJECT", Pos, what>>) /\ Next1
Name(ins) == IF ins[1] = 0 THEN "poke" ELSE OpTable[ins[1]][1]
Step == /\ pc \in 1..NIns
        /\ LET ins == Ins(pc)
               w == Width(ins)
               r == SubSeq(E.r, q + 1, q + w)
           IN  IF q + w <= Len(E.r) /\ Allowed(ins, r)
               THEN Effect(ins, r) /\ pc' = pc + 1 /\ q' = q + w /\ UNCHANGED <<c, i>>
               ELSE Reject(<<pc, Name(ins)>>)
End == /\ pc = NIns + 1
       /\ IF SubSeq(E.r, q + 1, Len(E.r)) = mem \o mem THEN Next1 ELSE Reject(<<pc, "final memory">>)
TNext == IF Pos > Len(Trace) THEN pc = 0 /\ PrintT(<<"CHUNK", c>>) /\ pc' = -1 /\ UNCHANGED <<c, i, q, mem>>
         ELSE pc >= 0 /\ (Begin \/ Step \/ End)
=============================================================================
