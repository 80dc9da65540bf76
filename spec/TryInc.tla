------------------------------- MODULE TryInc -------------------------------
(***************************************************************************)
(* Hash-to-point by trial: the first candidate that is the x coordinate of *)
(* a point of y^2 = x^3 + 7 over the field of p = 3 mod 4 elements, with   *)
(* the root f^((p+1)/4).  cand[i] is the i-th hash value, a signed number. *)
(***************************************************************************)
EXTENDS Num

RhsOf(x, p) == NMod(NAdd(NMul(NMul(x, x), x), NLit(7)), p)
RootOf(f, p) == NPowMod(f, NDiv(NAdd(p, NLit(1)), NLit(4)), p)
OnEq(x, y, p) == NEq(NMod(NMul(y, y), p), RhsOf(x, p))
LiftX(x, p) == LET y == RootOf(RhsOf(x, p), p) IN IF OnEq(x, y, p) THEN <<x, y>> ELSE <<>>
RECURSIVE FirstPoint(_, _, _, _)
FirstPoint(cand, p, i, n) ==
  IF i = n THEN <<>> ELSE LET q == LiftX(NMod(cand[i], p), p) IN IF q # <<>> THEN q ELSE FirstPoint(cand, p, i + 1, n)
=============================================================================
