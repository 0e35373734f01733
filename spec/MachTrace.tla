----------------------------- MODULE MachTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the machine, call by call: every         *)
(* recorded result has to be a step of Machine, and the final registers    *)
(* and memory of the run, and of a second run of the same program, have to *)
(* be the state the specification arrived at.                              *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NChunks == atoi(IOEnv.TRACE_CHUNKS)
VARIABLES c, i, pc, q          \* chunk, programs consumed, instruction (0: not loaded), result words consumed
Pos == c + i * NChunks
E == Trace[Pos]
Ins(n) == SubSeq(E.a, StateWords + 6 * n - 5, StateWords + 6 * n)
NIns == (Len(E.a) - StateWords) \div 6
Blank == VR' = <<>> /\ MR' = <<>> /\ mem' = <<>>
TInit == /\ c \in 1..NChunks /\ i = 0 /\ pc = 0 /\ q = 0
         /\ VR = <<>> /\ MR = <<>> /\ mem = <<>>
Begin == pc = 0 /\ LoadState(E.a) /\ pc' = 1 /\ q' = 0 /\ UNCHANGED <<c, i>>
Reject(what) == PrintT(<<"REJECT", Pos, what>>) /\ Blank /\ pc' = 0 /\ q' = 0 /\ i' = i + 1 /\ c' = c
Step == /\ pc \in 1..NIns
        /\ LET ins == Ins(pc)
               w == Width(ins)
           IN  IF q + w <= Len(E.r) /\ Allowed(ins, SubSeq(E.r, q + 1, q + w))
               THEN Effect(ins, SubSeq(E.r, q + 1, q + w)) /\ pc' = pc + 1 /\ q' = q + w /\ UNCHANGED <<c, i>>
               ELSE Reject(<<pc, Instr[ins[1]][1]>>)
End == /\ pc = NIns + 1
       /\ IF SubSeq(E.r, q + 1, Len(E.r)) = Dump \o Dump
          THEN Blank /\ pc' = 0 /\ q' = 0 /\ i' = i + 1 /\ c' = c
          ELSE Reject(<<pc, "final state">>)
TNext == IF Pos > Len(Trace) THEN pc = 0 /\ PrintT(<<"CHUNK", c>>) /\ pc' = -1 /\ UNCHANGED <<c, i, q, VR, MR, mem>>
         ELSE pc >= 0 /\ (Begin \/ Step \/ End)
=============================================================================
