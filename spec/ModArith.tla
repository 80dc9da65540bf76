------------------------------ MODULE ModArith ------------------------------
(***************************************************************************)
(* Digit decomposition (C26), modular arithmetic and the vector operations *)
(* of the range proofs (C27).  q is the order the vectors are reduced by.  *)
(***************************************************************************)
EXTENDS Secp, Sequences, TLC

q == QOrd

(*-------------------------------- decomposition ---------------------------*)
Digit(x, u, i) == NMod(NDiv(x, NPow(u, i)), u)               \* i-th digit of x in base u
Decompose(x, u, l) == [i \in 1..l |-> Digit(x, u, i - 1)]
RECURSIVE Weigh(_, _)
Weigh(d, u) == IF d = <<>> THEN NLit(0) ELSE NAdd(Head(d), NMul(u, Weigh(Tail(d), u)))

(*------------------------------ modular arithmetic ------------------------*)
NilStr == "nil"
Inverse(x, m) == LET r == NMod(x, m) IN IF NIsInvertible(r, m) THEN NInv(r, m) ELSE NilStr
Power(x, e, m) == IF NLe(NLit(0), e) THEN NPowMod(NMod(x, m), e, m)
                  ELSE Inverse(NPowMod(NMod(x, m), NNeg(e), m), m)

(*----------------------------------- vectors ------------------------------*)
VAdd(a, b) == [i \in DOMAIN a |-> NMod(NAdd(a[i], b[i]), q)]
VSub(a, b) == [i \in DOMAIN a |-> NMod(NSub(a[i], b[i]), q)]
VMul(a, b) == [i \in DOMAIN a |-> NMod(NMul(a[i], b[i]), q)]
VScale(a, x) == [i \in DOMAIN a |-> NMod(NMul(a[i], x), q)]
RECURSIVE Inner(_, _)
Inner(a, b) == IF a = <<>> THEN NLit(0) ELSE NMod(NAdd(NMul(Head(a), Head(b)), Inner(Tail(a), Tail(b))), q)
Powers(x, n) == [i \in 1..n |-> IF i = 1 THEN NLit(1) ELSE NPowMod(NMod(x, q), NLit(i - 1), q)]

\* points are described by their discrete logarithms
Pts(a) == [i \in DOMAIN a |-> PMul(a[i], PBase)]
VExp(a, b) == PMulti(b, Pts(a))
VECAdd(a, b) == [i \in DOMAIN a |-> PAdd(PMul(a[i], PBase), PMul(b[i], PBase))]

(*-------------------------- what each call returns -------------------------*)
AOk(v) == [err |-> FALSE, v |-> v, same |-> TRUE]
AFail == [err |-> TRUE, same |-> TRUE]
Plain(v) == [v |-> v, same |-> TRUE]
SameLen(op, v) == IF Len(op.a) = Len(op.b) THEN AOk(v) ELSE AFail

ArithResult(op) ==
  CASE op.op = "Mode" -> [mode |-> TRUE]
    [] op.op = "Decompose" -> AOk(Decompose(op.x, op.u, NInt(op.l)))
    [] op.op = "ModPow" -> Plain(Power(op.x, op.e, NAbs(op.m)))
    [] op.op = "ModInverse" -> Plain(Inverse(op.x, NAbs(op.m)))
    [] op.op = "Mod" -> Plain(NMod(op.x, NAbs(op.m)))
    [] op.op = "Add" -> Plain(NAdd(op.x, op.y))
    [] op.op = "Sub" -> Plain(NSub(op.x, op.y))
    [] op.op = "Multiply" -> Plain(NMul(op.x, op.y))
    [] op.op = "VectorAdd" -> IF Len(op.a) = Len(op.b) THEN AOk(VAdd(op.a, op.b)) ELSE AFail
    [] op.op = "VectorSub" -> IF Len(op.a) = Len(op.b) THEN AOk(VSub(op.a, op.b)) ELSE AFail
    [] op.op = "VectorMul" -> IF Len(op.a) = Len(op.b) THEN AOk(VMul(op.a, op.b)) ELSE AFail
    [] op.op = "VectorScalarMul" -> AOk(VScale(op.a, op.x))
    [] op.op = "ScalarProduct" -> IF Len(op.a) = Len(op.b) THEN AOk(Inner(op.a, op.b)) ELSE AFail
    [] op.op = "VectorCopy" -> AOk([i \in 1..NInt(op.n) |-> op.x])
    [] op.op = "VectorConvertToBig" -> AOk(op.a)
    [] op.op = "PowerOf" -> AOk(Powers(op.x, NInt(op.n)))
    [] op.op = "VectorExp" -> IF Len(op.a) = Len(op.b) THEN AOk(VExp(op.a, op.b)) ELSE AFail
    [] op.op = "VectorECAdd" -> IF Len(op.a) = Len(op.b) THEN AOk(VECAdd(op.a, op.b)) ELSE AFail
=============================================================================
