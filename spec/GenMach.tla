------------------------------ MODULE GenMach ------------------------------
(***************************************************************************)
(* Programs for Machine: random instruction sequences on random registers. *)
(* Every other instruction is followed by a change of one lane of one of   *)
(* its operands and the same call again, so that state kept between calls  *)
(* (a cache, a lazily computed table) shows.                               *)
(***************************************************************************)
EXTENDS GenBase, MachOps
Plan(p) == <<<<"Run", 60 * GScale>>>>
NSteps == 16
SigOf(o) == Instr[o][2]
MDst(s) == s \in {"MM_M", "M_M", "V_M", "VV_M", "F_M", "FFF_M", "M=M", "SetRow", "MPoke", "LdM"}
MSrc1(s) == s \in {"MM_M", "M_M", "M_V", "M_VM", "M_B", "M=M", "GetRow", "StM"}
MSrc2(s) == s \in {"VM_V", "MM_M", "M_VM"}
MemN(o) == LET s == SigOf(o) IN IF s \in {"St", "Ld"} THEN Instr[o][3] ELSE IF s \in {"StM", "LdM"} THEN Instr[o][3][1] * Instr[o][3][2] ELSE 0
Angle(k, j) == Lane("mod", k, j)
FreshIns(k, n) ==
  LET j == 5000 + 20 * n
      o == 1 + ((Rnd(k, j) + k + 17 * n) % NInstr)
      s == SigOf(o)
      r(x, m) == Rnd(k, j + x) % m
      d == IF MDst(s) THEN r(1, 3) ELSE r(1, 8)
      s1 == IF MSrc1(s) THEN r(2, 3) ELSE IF s = "MPoke" THEN r(2, 4) ELSE r(2, 8)
      s2 == IF s \in {"V_VV", "VV_VV"} THEN (d + 1 + r(3, 7)) % 8 ELSE IF MSrc2(s) THEN r(3, 3) ELSE IF s \in {"MPoke", "VPoke"} THEN r(3, 4) ELSE r(3, 8)
      imm == CASE s \in {"VF_V", "VVF_V", "VVVVF_V", "V=F", "VU_V", "VPoke", "MPoke"} -> Lane(ModeOf(NumModes, k), k, j + 5)
               [] s = "F_M" -> Angle(k, j + 5)
               [] s = "VE_V" -> r(6, 32)
               [] s = "VVVV5_V" -> r(6, 64)
               [] s \in {"VR_V", "VVR_V", "GetRow", "SetRow"} -> r(6, 4)
               [] OTHER -> IF MemN(o) > 0 THEN r(7, 25 - MemN(o)) ELSE 0
  IN  <<o, d, s1, s2, r(4, 8), imm>>
\* opcodes of the two poke instructions
OpNamed(nm) == CHOOSE o \in 1..NInstr : Instr[o][1] = nm
VPk == OpNamed("VPoke")
MPk == OpNamed("MPoke")
\* change one lane of an operand of ins
Poke(ins, k, n) ==
  LET j == 9000 + 20 * n
      s == SigOf(ins[1])
      r(x, m) == Rnd(k, j + x) % m
      v == Lane(ModeOf(NumModes, k), k, j + 5)
      second == r(1, 2) = 1
  IN  IF MSrc1(s) /\ ~(MSrc2(s) /\ second /\ s = "MM_M") THEN <<MPk, ins[3], r(2, 4), r(3, 4), 0, v>>
      ELSE IF MSrc2(s) /\ s # "M_VM" /\ (second \/ s = "MM_M") THEN <<MPk, ins[4], r(2, 4), r(3, 4), 0, v>>
      ELSE IF s \in {"M=M"} THEN <<MPk, ins[2], r(2, 4), r(3, 4), 0, v>>
      ELSE IF s \in {"VV_V", "VVV_V", "VV_B", "VV_U", "VV_M", "VVV_B", "VV_CRV"} /\ second THEN <<VPk, ins[4], 0, r(3, 4), 0, v>>
      ELSE <<VPk, ins[3] % 8, 0, r(3, 4), 0, v>>
InsOf(k, n) ==
  LET p == n % 4
      base == FreshIns(k, n - p + 1)
      again == Rnd(k, 4000 + (n \div 4)) % 2 = 0
  IN  IF again /\ p = 2 THEN Poke(base, k, n) ELSE IF again /\ p = 3 THEN base ELSE FreshIns(k, n)
RECURSIVE Prog(_, _)
Prog(k, n) == IF n > NSteps THEN <<>> ELSE InsOf(k, n) \o Prog(k, n + 1)
Scen(o, k) ==
  LET mode == ModeOf(<<"mod", "lat", "unit", "mod", "int", "lat", "dict", "spec", "mix1">>, k)
      Regs == [i \in 1..104 |-> Lane(IF i > 32 /\ mode = "spec" THEN "mod" ELSE mode, k, i)]
  IN  Regs \o Prog(k, 1)
=============================================================================
