------------------------------- MODULE Scene -------------------------------
(***************************************************************************)
(* A scene of bounding volumes: a memory of words holding two spheres, two *)
(* boxes, two oriented boxes, two frusta, eight points, six planes,        *)
(* similarity transforms and a projection.  Its instructions build volumes *)
(* out of others (merge, enclose, transform, corners, planes) and query    *)
(* them.  An instruction reads windows of the memory, its result is any    *)
(* the relations Coll and CollB allow for what the memory holds *then*,    *)
(* and only the destination changes: volumes are values, queries leave no  *)
(* trace, and errors do not accumulate beyond what each step allows.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SceneOps
VARIABLE mem
NMem == 174
\* where things are (from 0) and how long they are
Home(k) == CASE k = "S" -> <<0, 4>> [] k = "B" -> <<8, 6>> [] k = "O" -> <<20, 10>> [] k = "F" -> <<40, 13>>
             [] k = "N" -> <<66, 25>> [] k = "C" -> <<67, 24>> [] k = "P" -> <<67, 4>> [] k = "L" -> <<91, 24>> [] k = "V" -> <<91, 4>>
             [] k = "M" -> <<115, 16>> [] k = "D" -> <<147, 9>> [] k = "J" -> <<156, 17>> [] k = "K" -> <<173, 1>>
LOCAL Q == INSTANCE Coll
LOCAL B == INSTANCE CollB
Builders == {"S", "B", "O", "F", "C", "L"}
ResultLen(kind) == IF kind = "q" THEN 1 ELSE IF kind = "r" THEN 2 ELSE Home(kind)[2]
\* an instruction is <<op, dst, o1, l1, o2, l2, o3, l3, o4, l4>>; op 0 assigns the word l1
\* at o1 or, with destination 998, negates the word at o1, or copies the window o1, l1 to the destination
InsLen == 10
Width(ins) == IF ins[1] = 0 THEN 0 ELSE ResultLen(OpTable[ins[1]][3])
Window(o, l) == SubSeq(mem, o + 1, o + l)
Args(ins) == Window(ins[3], ins[4]) \o Window(ins[5], ins[6]) \o Window(ins[7], ins[8]) \o Window(ins[9], ins[10])
Allowed(ins, r) ==
  \/ ins[1] = 0
  \/ LET n == OpTable[ins[1]] IN IF n[3] \in Builders THEN B!Ok(n[1], Args(ins), r) ELSE Q!Ok(n[1], Args(ins), r)
Written(at, w) == [p \in 1..NMem |-> IF p > at /\ p <= at + Len(w) THEN w[p - at] ELSE mem[p]]
Effect(ins, r) ==
  mem' = IF ins[1] = 0 THEN (IF ins[2] = 999 THEN Written(ins[3], <<ins[4]>>) ELSE IF ins[2] = 998 THEN Written(ins[3], <<Q!FNegBits(mem[ins[3] + 1])>>) ELSE Written(ins[2], Window(ins[3], ins[4])))
         ELSE IF OpTable[ins[1]][3] \in Builders THEN Written(ins[2], r) ELSE mem
=============================================================================
