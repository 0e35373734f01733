-------------------------------- MODULE Lib --------------------------------
(* Access to the flat argument and result lists of an event. *)
EXTENDS Integers, Sequences, ENum
\* the n-th vector (0-based) when arguments start with vectors
V(a, n) == <<a[4*n+1], a[4*n+2], a[4*n+3], a[4*n+4]>>
\* four words at 1-based position p
At4(a, p) == <<a[p], a[p+1], a[p+2], a[p+3]>>
\* row i (1..4) of the matrix whose 16 words start at p
Row(a, p, i) == At4(a, p + 4 * (i - 1))
Mat(a, p) == <<Row(a, p, 1), Row(a, p, 2), Row(a, p, 3), Row(a, p, 4)>>
Lanes4 == 1..4
Splat(x) == <<x, x, x, x>>
BoolW(c) == IF c THEN 1 ELSE 0
\* E-vectors
EV(v) == <<EBits(v[1]), EBits(v[2]), EBits(v[3]), EBits(v[4])>>
EOkV(r, x, k) == \A i \in 1..4 : EOk(r[i], x[i], k)
=============================================================================
