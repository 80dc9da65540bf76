------------------------------- MODULE Points -------------------------------
(***************************************************************************)
(* Stateless operations of the group layer: decoding of byte strings (C22),*)
(* hash-to-point and the curve equation (C23), Pedersen commitments (C28). *)
(***************************************************************************)
EXTENDS Secp, Bn, TryInc, Sequences, TLC

HashCps(s) == 0               \* SHA-256 of that string as a signed number        (Java at real size)
POn(x, y) == FALSE            \* the secp256k1 equation for reduced coordinates    (Java at real size)
FieldP == 0                   \* the secp256k1 field                               (Java at real size)
PLiftY(x) == "none"           \* a y with (x, y) on the curve                      (Java at real size)

\* hash-to-point of the string with code points s: the candidates are the hashes of 0s, 1s, 2s, ... 255s
RECURSIVE DecCps(_)
DecCps(i) == IF i < 10 THEN <<48 + i>> ELSE Append(DecCps(i \div 10), 48 + (i % 10))
PointText(x, y) == ""         \* a point by its coordinates                         (Java at real size)
PHashCps(s) == LET q == FirstPoint([i \in 0..255 |-> HashCps(DecCps(i) \o s)], FieldP, 0, 256) IN IF q = <<>> THEN "none" ELSE PointText(q[1], q[2])

Commit1(x, r, y) == PAdd(PMul(x, PBase), PMul(r, PMul(y, PBase)))          \* g^x h^r with h = g^y
Commit2(x, r, y) == G2Enc(NMod(NAdd(x, NMul(r, y)), ROrd))

PointResult(op) ==
  CASE op.t = "D" -> IF (CASE op.op = "G1" -> G1Valid(op.h) [] op.op = "G2" -> G2Valid(op.h) [] op.op = "GT" -> GTValid(op.h))
                     THEN Short(op.h) ELSE "refused"
    [] op.t = "H" -> IF op.op = "MapToGroup" THEN PHashCps(op.s) ELSE HashCps(op.s)
    [] op.t = "C" -> IF op.op = "F" THEN NMod(NAdd(NMul(NMul(op.x, op.x), op.x), NLit(7)), FieldP)
                     ELSE IF op.x = "nil" \/ op.y = "nil" \/ ~ POn(op.x, op.y) THEN "false" ELSE "true"
    [] op.t = "K" -> IF op.op = "CommitG1" THEN Commit1(op.x, op.r, op.y) ELSE Short(Commit2(op.x, op.r, op.y))
=============================================================================
