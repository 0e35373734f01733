------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* A register machine whose instructions are API calls.                    *)
(*   V    eight vector registers (words)                                   *)
(*   M    three matrix registers (16 words, row by row)                    *)
(*   mem  a byte-addressable-by-word memory the load and store calls use   *)
(* An instruction reads its operands from the state, its result is any the *)
(* specification of the called function allows, and nothing but its        *)
(* destination changes: there is no hidden state.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FArith, MachOps
VARIABLES VR, MR, mem
vars == <<VR, MR, mem>>
NV == 8
NM == 3
NMem == 24
LOCAL A == INSTANCE Arith
LOCAL L == INSTANCE Lanes
LOCAL C == INSTANCE Cmp
LOCAL X == INSTANCE Vec
LOCAL T == INSTANCE Mat
LOCAL Q == INSTANCE Quat
LOCAL Fn == INSTANCE Func

LOCAL K == INSTANCE Conv

FamOk(f, n, a, r) ==
  CASE f = "A" -> A!Ok(n, a, r) [] f = "L" -> L!Ok(n, a, r) [] f = "C" -> C!Ok(n, a, r) [] f = "X" -> X!Ok(n, a, r)
    [] f = "T" -> T!Ok(n, a, r) [] f = "Q" -> Q!Ok(n, a, r) [] f = "F" -> Fn!Ok(n, a, r) [] f = "K" -> K!Ok(n, a, r)
    [] f = "+" -> \A i \in 1..16 : Same(r[i], FAdd(a[i], a[16 + i]))
    [] f = "-" -> \A i \in 1..16 : Same(r[i], FSub(a[i], a[16 + i]))

\* an instruction is <<opcode, d, s1, s2, s3, imm>>, registers numbered from 0
Sig(ins) == Instr[ins[1]][2]
NoDest == {"VV_B", "VVV_B", "V_B", "M_B", "VV_U"}
\* number of words an instruction reports
Width(ins) ==
  LET s == Sig(ins) IN
  CASE s \in {"M_M", "MM_M", "V_M", "VV_M", "F_M", "FFF_M", "M=M", "SetRow", "MPoke", "LdM"} -> 16
    [] s = "M_VM" -> 20 [] s \in {"V_VV", "VV_VV"} -> 8 [] s = "VV_CRV" -> 5 [] s \in NoDest -> 1
    [] s \in {"St", "StM"} -> NMem
    [] OTHER -> 4
Vr(n) == VR[n + 1]
Mr(n) == MR[n + 1]
\* transposed 3x4 storage: XMFLOAT3X4 holds the matrix by columns
Cells(n, dim) ==                                            \* words stored for a matrix, in order
  IF n \in {"XMStoreFloat3x4", "XMLoadFloat3x4"} THEN [k \in 1..12 |-> <<1 + ((k - 1) % 4), 1 + ((k - 1) \div 4)>>]
  ELSE [k \in 1..(dim[1] * dim[2]) |-> <<1 + ((k - 1) \div dim[2]), 1 + ((k - 1) % dim[2])>>]
Stored(n, dim, m) == LET c == Cells(n, dim) IN [k \in 1..Len(c) |-> m[4 * (c[k][1] - 1) + c[k][2]]]
Loaded(n, dim, w) ==
  LET c == Cells(n, dim)
  IN  [p \in 1..16 |-> LET i == 1 + ((p - 1) \div 4)
                           j == 1 + ((p - 1) % 4)
                           k == {x \in 1..Len(c) : c[x] = <<i, j>>}
                       IN  IF k # {} THEN w[CHOOSE x \in k : TRUE] ELSE IF i = j THEN OneB ELSE 0]
Patch(at, w) == [p \in 1..NMem |-> IF p > at /\ p <= at + Len(w) THEN w[p - at] ELSE mem[p]]
Window(at, n) == SubSeq(mem, at + 1, at + n)

\* the result words r are allowed for ins in the current state
Allowed(ins, r) ==
  LET n == Instr[ins[1]][1]
      f == Instr[ins[1]][3]
      s == Sig(ins)
  IN
  CASE s \in {"VV_V", "VV_B", "VV_U", "VV_CRV"} -> FamOk(f, n, Vr(ins[3]) \o Vr(ins[4]), r)
    [] s \in {"V_V", "V_B"} -> FamOk(f, n, Vr(ins[3]), r)
    [] s \in {"VVV_V", "VVV_B"} -> FamOk(f, n, Vr(ins[3]) \o Vr(ins[4]) \o Vr(ins[5]), r)
    [] s \in {"VF_V", "VU_V", "VE_V", "VR_V"} -> FamOk(f, n, Vr(ins[3]) \o <<ins[6]>>, r)
    [] s \in {"VVF_V", "VVR_V"} -> FamOk(f, n, Vr(ins[3]) \o Vr(ins[4]) \o <<ins[6]>>, r)
    [] s = "VVVV5_V" -> FamOk(f, n, Vr(ins[3]) \o Vr(ins[4]) \o Vr(ins[5]) \o Vr(ins[6] % 8) \o Vr((ins[6] \div 8) % 8), r)
    [] s = "VVVVF_V" -> FamOk(f, n, Vr(ins[3]) \o Vr(ins[4]) \o Vr(ins[5]) \o Vr(ins[2]) \o <<ins[6]>>, r)
    [] s = "VV_VV" -> FamOk(f, n, Vr(ins[3]) \o Vr(ins[5]), r)
    [] s = "F_M"   -> FamOk(f, n, <<ins[6]>>, r)
    [] s = "FFF_M" -> FamOk(f, n, SubSeq(Vr(ins[3]), 1, 3), r)
    [] s = "V=F"   -> FamOk(f, n, Vr(ins[2]) \o <<ins[6]>>, r)
    [] s = "VPoke" -> r = [Vr(ins[2]) EXCEPT ![ins[4] + 1] = ins[6]]
    [] s = "MPoke" -> r = [Mr(ins[2]) EXCEPT ![4 * ins[3] + ins[4] + 1] = ins[6]]
    [] s = "VM_V"  -> FamOk(f, n, Vr(ins[3]) \o Mr(ins[4]), r)
    [] s = "V_VV"  -> FamOk(f, n, Vr(ins[3]), r)
    [] s = "MM_M"  -> FamOk(f, n, Mr(ins[3]) \o Mr(ins[4]), r)
    [] s \in {"M_M", "M_V", "M_VM", "M_B"} -> FamOk(f, n, Mr(ins[3]), r)
    [] s = "V_M"   -> FamOk(f, n, Vr(ins[3]), r)
    [] s = "VV_M"  -> FamOk(f, n, Vr(ins[3]) \o Vr(ins[4]), r)
    [] s = "V=V"   -> FamOk(f, n, Vr(ins[2]) \o Vr(ins[3]), r)
    [] s = "M=M"   -> FamOk(f, n, Mr(ins[2]) \o Mr(ins[3]), r)
    [] s = "GetRow" -> r = SubSeq(Mr(ins[3]), 4 * ins[6] + 1, 4 * ins[6] + 4)
    [] s = "SetRow" -> r = [p \in 1..16 |-> IF (p - 1) \div 4 = ins[6] THEN Vr(ins[3])[1 + ((p - 1) % 4)] ELSE Mr(ins[2])[p]]
    [] s = "St"    -> r = Patch(ins[6], SubSeq(Vr(ins[3]), 1, f))
    [] s = "Ld"    -> r = [i \in 1..4 |-> IF i <= f THEN Window(ins[6], f)[i] ELSE 0]
    [] s = "StM"   -> r = Patch(ins[6], Stored(n, f, Mr(ins[3])))
    [] s = "LdM"   -> IF n = "XMLoadFloat3x3"              \* values kept; zero signs and NaN payloads may not be
                      THEN LET m == Loaded(n, f, Window(ins[6], f[1] * f[2])) IN \A p \in 1..16 : Same(r[p], m[p])
                      ELSE r = Loaded(n, f, Window(ins[6], f[1] * f[2]))

\* the effect of ins with result r: only the destination changes
Effect(ins, r) ==
  LET s == Sig(ins)
      v1 == SubSeq(r, 1, 4)
  IN
  /\ VR' = CASE s \in {"VV_V", "V_V", "VVV_V", "VF_V", "VU_V", "VE_V", "VR_V", "VVF_V", "VVR_V", "VVVV5_V", "VVVVF_V", "VM_V", "M_V", "V=V", "V=F", "VPoke", "GetRow", "Ld"} -> [VR EXCEPT ![ins[2] + 1] = v1]
            [] s = "M_VM" -> [VR EXCEPT ![ins[2] + 1] = SubSeq(r, 17, 20)]
            [] s = "VV_CRV" -> [VR EXCEPT ![ins[2] + 1] = SubSeq(r, 2, 5)]
            [] s \in {"V_VV", "VV_VV"} -> [VR EXCEPT ![ins[2] + 1] = v1, ![ins[4] + 1] = SubSeq(r, 5, 8)]
            [] OTHER -> VR
  /\ MR' = CASE s \in {"MM_M", "M_M", "V_M", "VV_M", "F_M", "FFF_M", "M=M", "SetRow", "MPoke", "LdM"} -> [MR EXCEPT ![ins[2] + 1] = r]
            [] s = "M_VM" -> [MR EXCEPT ![ins[4] + 1] = SubSeq(r, 1, 16)]
            [] OTHER -> MR
  /\ mem' = IF s \in {"St", "StM"} THEN r ELSE mem

Exec(ins, r) == Allowed(ins, r) /\ Effect(ins, r)
Dump == LET RECURSIVE Cat(_, _)
            Cat(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Cat(s, i + 1)
        IN  Cat(VR, 1) \o Cat(MR, 1) \o mem
StateWords == 4 * NV + 16 * NM + NMem
LoadState(w) ==
  /\ VR' = [n \in 1..NV |-> SubSeq(w, 4 * n - 3, 4 * n)]
  /\ MR' = [n \in 1..NM |-> SubSeq(w, 4 * NV + 16 * n - 15, 4 * NV + 16 * n)]
  /\ mem' = SubSeq(w, 4 * NV + 16 * NM + 1, StateWords)
=============================================================================
