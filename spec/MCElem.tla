------------------------------- MODULE MCElem -------------------------------
(* Design-level check of the reference functions: identities that tie them *)
(* to each other, over a grid of arguments.                                *)
EXTENDS Elem, TLC
VARIABLE k
Close(a, b) == DLe(DAbs(DSub(a, b)), DPow2(-58))
Rel(a, b) == DLe(DAbs(DSub(a, b)), DMul(DAbs(b), DPow2(-58)))
X == DDiv(DInt(k), DInt(16))
Init == k \in -200..200
Next == UNCHANGED k
U == DDiv(DInt(k), DInt(200))
Inv ==
  LET sc == SinCos(X)
      s == sc[1]
      c == sc[2]
      h == SinCos(DHalf(X))
  IN  /\ Close(DAdd(DMul(s, s), DMul(c, c)), D1)
      /\ Close(s, DMul(DInt(2), DMul(h[1], h[2])))
      /\ Close(Atan2(s, c), Wrap(X)) \/ Close(DAbs(DSub(Atan2(s, c), Wrap(X))), TwoPi)
      /\ Close(Sin(Asin(U)), U) /\ Close(Cos(Acos(U)), U)
      /\ Close(DAdd(Asin(U), Acos(U)), HalfPi)
      /\ Rel(DMul(Exp(X), Exp(DNeg(X))), D1)
      /\ Rel(Exp2(X), Exp(DMul(X, Ln2)))
      /\ Close(Log2(Exp2(X)), X)
      /\ DSign(Sin(U)) = DSign(U)
=============================================================================
