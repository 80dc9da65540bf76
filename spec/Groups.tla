------------------------------- MODULE Groups -------------------------------
(***************************************************************************)
(* Register machines over the four groups (C19-C22): P is the secp256k1    *)
(* point type, G1, G2 and GT those of bn256.  The state maps every         *)
(* register to the exponent of its content, or to Unset before its first   *)
(* use as a receiver.  An operation record has the bank t, the receiver d, *)
(* the operands a and b and the scalar k; whether d, a and b are different *)
(* registers makes no difference to the meaning.                            *)
(***************************************************************************)
EXTENDS Secp, Bn, Sequences, TLC
CONSTANT NReg

Unset == NLit(-1)
Banks == {"P", "G1", "G2", "GT"}
ord(t) == IF t = "P" THEN QOrd ELSE ROrd
InitRegs == [t \in Banks |-> [i \in 1..NReg |-> IF t = "P" THEN NLit(0) ELSE Unset]]

Binary == {"Add", "Multiply", "Pair"}
Unary == {"Mul", "Exp", "Neg", "Invert", "Double", "Copy", "IsZero", "IsOne", "OnCurve", "Marshal", "Coords"}
Zero(x) == NEq(x, NLit(0))

\* Operands must have been set.  P.Add is documented for distinct points only (and an existing test
\* relies on its answer for equal ones); Multiply is the complete addition.
Enabled(rg, op) ==
  CASE op.op = "Pair" -> rg["G1"][op.a] # Unset /\ rg["G2"][op.b] # Unset
    [] op.t = "PC" -> \A i \in DOMAIN op.l : rg["G1"][op.l[i][1]] # Unset /\ rg["G2"][op.l[i][2]] # Unset
    [] op.t = "P" /\ op.op = "Add" -> Zero(rg["P"][op.a]) \/ Zero(rg["P"][op.b]) \/ rg["P"][op.a] # rg["P"][op.b]
    [] op.op \in Binary -> rg[op.t][op.a] # Unset /\ rg[op.t][op.b] # Unset
    [] op.op \in Unary -> rg[op.t][op.a] # Unset
    [] OTHER -> TRUE

\* the value the receiver gets
Value(rg, op) ==
  LET r == rg[op.t] m == ord(op.t) IN
  CASE op.op \in {"SetInf", "SetZero"} -> NLit(0)
    [] op.op = "Base" -> NMod(op.k, m)
    [] op.op \in {"Mul", "Exp"} -> NMod(NMul(op.k, r[op.a]), m)
    [] op.op \in {"Neg", "Invert"} -> NMod(NNeg(r[op.a]), m)
    [] op.op = "Double" -> NMod(NAdd(r[op.a], r[op.a]), m)
    [] op.op \in {"Add", "Multiply"} -> NMod(NAdd(r[op.a], r[op.b]), m)
    [] op.op = "Copy" -> r[op.a]
    [] op.op = "Pair" -> NMod(NMul(rg["G1"][op.a], rg["G2"][op.b]), m)

Writes == {"SetInf", "SetZero", "Base", "Mul", "Exp", "Neg", "Invert", "Double", "Add", "Multiply", "Copy", "Pair", "Random"}

\* the registers after op; rk is the exponent a random operation chose
Apply(rg, op, rk) ==
  IF op.op \notin Writes THEN rg
  ELSE [rg EXCEPT ![op.t][op.d] = IF op.op = "Random" THEN rk ELSE Value(rg, op)]

RECURSIVE PairSum(_, _)
PairSum(rg, l) == IF l = <<>> THEN NLit(0)
                  ELSE NAdd(NMul(rg["G1"][Head(l)[1]], rg["G2"][Head(l)[2]]), PairSum(rg, Tail(l)))

Bool(b) == IF b THEN "true" ELSE "false"
Enc(t, x) ==
  IF x = Unset THEN "unset"
  ELSE CASE t = "P" -> PMul(x, PBase)
         [] t = "G1" -> Short(G1Enc(x))
         [] t = "G2" -> Short(G2Enc(x))
         [] t = "GT" -> Short(GTEnc(x))

\* what the operation answers
Ret(rg, op) ==
  CASE op.t = "PC" -> Bool(Zero(NMod(PairSum(rg, op.l), ROrd)))
    [] op.op \in {"IsZero", "IsOne"} -> Bool(Zero(rg[op.t][op.a]))
    [] op.op = "OnCurve" -> Bool(~ Zero(rg[op.t][op.a]))
    [] op.op \in {"Marshal", "Coords"} -> Enc(op.t, rg[op.t][op.a])
    [] OTHER -> "ok"

View(rg) == [t \in Banks |-> [i \in 1..NReg |-> Enc(t, rg[t][i])]]
HasText(t, x) == x # Unset /\ (t = "P" => ~ Zero(x))
SameMatrix(r, t) == [i \in 1..NReg |-> [j \in 1..NReg |->
                       IF HasText(t, r[i]) /\ HasText(t, r[j]) THEN Bool(r[i] = r[j]) ELSE "unset"]]
=============================================================================
