------------------------------- MODULE MCColl -------------------------------
(***************************************************************************)
(* Design-level model check of the exact geometry CGeom that judges the    *)
(* collision tests: over pairs of bodies (and rays) in small integer       *)
(* positions, the gap is symmetric, bounded by the distances of every      *)
(* point to the two bodies, and zero or negative only when some point      *)
(* (of a grid, up to its spacing) belongs to both.                         *)
(***************************************************************************)
EXTENDS CGeom, FiniteSets
Shift == {-3, 0, 2}
VARIABLE s
I3(x, y, z) == <<DInt(x), DInt(y), DInt(z)>>
Hf(n) == DMul(DInt(n), DPow2(-1))
\* rotations: identity, 120 degrees about the diagonal, and a 3-4-5 one (rounded)
Turn == <<Hf(1), Hf(1), Hf(1), Hf(1)>>
Fifth(n) == DDiv(DInt(n), DInt(5))
NB == 9
Shape(n, p) ==
  CASE n = 1 -> SphereBody(p, DInt(2))
    [] n = 2 -> BoxBody(p, I3(1, 2, 3), <<AxX, AxY, AxZ>>)
    [] n = 3 -> BoxBody(p, I3(2, 1, 1), QAxes(Turn))
    [] n = 4 -> BoxBody(p, I3(1, 1, 2), << <<Fifth(3), Fifth(4), D0>>, <<Fifth(-4), Fifth(3), D0>>, AxZ >>)
    [] n = 5 -> FrusBody(p, <<AxX, AxY, AxZ>>, <<D1, DInt(-1), D1, DInt(-1)>>, D1, DInt(3))
    [] n = 6 -> FrusBody(p, QAxes(Turn), <<DInt(2), Hf(1), D1, Hf(-1)>>, D1, DInt(2))
    [] n = 7 -> TriBody(p, Add3(p, I3(3, 0, 0)), Add3(p, I3(0, 2, 1)))
    [] n = 8 -> TriBody(p, Add3(p, I3(0, 3, 0)), Add3(p, I3(0, 0, 3)))
    [] n = 9 -> TriBody(p, Add3(p, I3(1, -2, 2)), Add3(p, I3(-2, 1, 2)))
Eps == DPow2(-40)
Near(x, y) == DLe(DAbs(DSub(x, y)), Eps)
Within(h, p) == \A i \in 1..Len(h) : DLe(Dot3(h[i].n, p), DAdd(h[i].d, Eps))
Init == s \in (1..NB) \X (1..NB)
Next == Len(s) = 2 /\ \E x, y \in Shift, z \in {0, 2} : s' = s \o <<x, y, z>>
A == Shape(s[1], I3(0, 0, 0))
B == Shape(s[2], I3(s[3], s[4], s[5]))
Pt(x, y, z) == <<Hf(x), Hf(y), Hf(z)>>
\* points of a grid with spacing 1
Grid == {-8, -6, -4, -2, 0, 2, 4, 6, 8}
Pairs ==
  LET g == Sep(A, B)
      b == Sep(B, A)
      dA(p) == PtDist(p, A)
      dB(p) == PtDist(p, B)
      out == IF A.ty = "T" THEN D1 ELSE Outside(A, B)
  IN  /\ Near(g[1], b[1])
      /\ DLe(DAbs(g[1]), DAdd(DAbs(g[2]), DInt(100)))
      \* no point is closer to the two bodies together than the gap
      /\ \A x, y, z \in Grid : DLe(g[1], DAdd(DAdd(dA(Pt(x, y, z)), dB(Pt(x, y, z))), Eps))
      \* bodies that meet do so near some grid point
      /\ DLe(g[1], D0) => \E x, y, z \in Grid : DLe(DAdd(dA(Pt(x, y, z)), dB(Pt(x, y, z))), DMul(DInt(7), DPow2(-2)))
      \* vertices of one inside the other: they meet
      /\ B.ty # "S" /\ A.ty # "T" /\ A.ty # "S" /\ (\E i \in 1..Len(B.v) : Inside(A.h, B.v[i])) => DLe(g[1], Eps)
      \* a face of A separates them: there is a gap at least that large
      /\ A.ty \in {"O", "F"} => DLe(FaceSep(A, B), DAdd(g[1], Eps))
      \* containment
      /\ DLe(out, D0) => DLe(g[1], Eps)
      /\ A.ty \in {"O", "F"} /\ B.ty # "S" => ((DLe(out, Eps)) <=> \A i \in 1..Len(B.v) : \A k \in 1..6 : DLe(DDiv(DSub(Dot3(A.h[k].n, B.v[i]), A.h[k].d), Len3(A.h[k].n)), Eps))
\* every vertex of a polytope lies on its own boundary, and its centre inside
Solid ==
  \/ A.ty \in {"S", "T"}
  \/ /\ \A i \in 1..8 : Within(A.h, A.v[i]) /\ Cardinality({k \in 1..6 : Near(Dot3(A.h[k].n, A.v[i]), A.h[k].d)}) = 3
     /\ Inside(A.h, Scale3(Add3(A.v[1], A.v[7]), DPow2(-1)))
     /\ \A x, y, z \in {-4, 0, 3} : (DLe(PtDist(Pt(x, y, z), A), Eps)) <=> Within(A.h, Pt(x, y, z))
\* the ray interval is the set of parameters whose points are inside
Ray ==
  \/ A.ty \in {"T"}
  \/ LET o == I3(s[3], s[4], 5 - s[5])
         d == IF (s[3] + s[4]) % 2 = 0 THEN I3(0, 0, -1) ELSE <<DMul(DInt(3), DDiv(D1, DInt(5))), D0, DMul(DInt(-4), DDiv(D1, DInt(5)))>>
         iv == IF A.ty = "S" THEN RaySphere(A.c, A.r, o, d) ELSE RayPoly(A, o, d, D0)
         at(t) == Add3(o, Scale3(d, t))
         mem(p) == IF A.ty = "S" THEN DLe(Sq3(Sub3(p, A.c)), DMul(A.r, A.r)) ELSE Inside(A.h, p)
     IN  \A k \in -12..12 :
           LET t == Hf(k)
           IN  IF iv # <<>> /\ (Near(t, iv[1]) \/ Near(t, iv[2])) THEN TRUE
               ELSE mem(at(t)) <=> (iv # <<>> /\ DLt(iv[1], t) /\ DLt(t, iv[2]))
Inv == Len(s) = 2 \/ (Pairs /\ Solid /\ Ray)
=============================================================================
