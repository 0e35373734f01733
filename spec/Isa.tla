-------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* A build only executes instructions of the extensions it was configured  *)
(* for.  Event: a = the configured target features, r = the extensions     *)
(* whose intrinsics the built library contains (numbers as below).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bits
\* 1 sse, 2 sse2, 3 sse3, 4 ssse3, 5 sse4.1, 6 sse4.2, 7 avx, 8 f16c, 9 fma, 10 avx2, 0 no intrinsics requested (the baseline x86-64 ones come with the standard library), 99 anything else
Implies(n) ==                                   \* what a feature brings along (x86-64: sse and sse2 always)
  CASE n = 0 -> {1, 2} [] n = 2 -> {1, 2} [] n = 3 -> {1, 2, 3} [] n = 5 -> {1, 2, 3, 4, 5} [] n = 7 -> {1, 2, 3, 4, 5, 6, 7}
    [] n = 8 -> {1, 2, 3, 4, 5, 6, 7, 8} [] n = 9 -> {1, 2, 3, 4, 5, 6, 7, 9} [] n = 10 -> {1, 2, 3, 4, 5, 6, 7, 10} [] OTHER -> {n}
Allowed(a) == UNION {Implies(a[i]) : i \in 1..Len(a)}
Ok(o, a, r) == \A i \in 1..Len(r) : r[i] = -1 \/ r[i] \in Allowed(a)
=============================================================================
