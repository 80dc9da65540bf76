--------------------------------- MODULE BP ---------------------------------
(***************************************************************************)
(* Bulletproofs range proofs and the inner product argument (eprint        *)
(* 2017/1066, sections 3, 4.1 and 4.2), prover and verifier.  Equation     *)
(* numbers are those of the paper.  The text is independent of the group:  *)
(* with the native numbers of module Num it runs over a small field and    *)
(* the generic group of module Secp, with the Java classes over secp256k1. *)
(*                                                                         *)
(* A range proof is a record                                               *)
(*   n, V, A, S, T1, T2, C (the vector commitment), taux, mu, t,           *)
(*   ls, rs, a, b (the inner product proof), gens (its generators).        *)
(* Challenges are a record y, z, x, w (of the inner product statement) and *)
(* xs (one for each folding round).                                        *)
(***************************************************************************)
EXTENDS Transcript, TLC

F(x) == NMod(x, QOrd)
FAdd(a, b) == F(NAdd(a, b))
FSub(a, b) == F(NSub(a, b))
FMul(a, b) == F(NMul(a, b))
FNeg(a) == F(NNeg(a))
FInv(a) == NInv(F(a), QOrd)
FPow(a, k) == NPowMod(F(a), NLit(k), QOrd)              \* k a native number
Two(k) == NPow(NLit(2), k)

\* sequences of field elements
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> FAdd(a[i], b[i])])
VScale(k, a) == TLCEval([i \in 1..Len(a) |-> FMul(k, a[i])])
VMul(a, b) == TLCEval([i \in 1..Len(a) |-> FMul(a[i], b[i])])
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN NLit(0) ELSE FAdd(FMul(Head(a), Head(b)), Dot(Tail(a), Tail(b)))
RECURSIVE Prod(_)
Prod(a) == IF a = <<>> THEN NLit(1) ELSE FMul(Head(a), Prod(Tail(a)))
Powers(x, n) == TLCEval([i \in 1..n |-> FPow(x, i - 1)])
Const(x, n) == TLCEval([i \in 1..n |-> x])
Lo(a) == SubSeq(a, 1, Len(a) \div 2)
Hi(a) == SubSeq(a, Len(a) \div 2 + 1, Len(a))

RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)

(*------------------------------ generators -------------------------------*)
GenH == PHash(NameH)
GenU == PHash(NameU)
GenGg(n) == TLCEval([i \in 1..n |-> PHash(NameGg(i - 1))])
GenHh(n) == TLCEval([i \in 1..n |-> PHash(NameHh(i - 1))])
StdGens(n) == GensRep(PBase, GenH, GenGg(n), GenHh(n))    \* what Setup publishes
Com(x, r) == PMulti(<<x, r>>, <<PBase, GenH>>)

(*--------------------------- inner product (3) ---------------------------*)
\* exponent of the i-th generator after folding with the challenges xs
Fold(xs, i) ==
  Prod([j \in 1..Len(xs) |-> IF ((i - 1) \div (2 ^ (Len(xs) - j))) % 2 = 1 THEN F(xs[j]) ELSE FInv(xs[j])])

\* statement of the next round: P' = L^(x^2) P R^(x^-2)                     (31)
NextP(P, L, R, x) == PMulti(<<FMul(x, x), NLit(1), FInv(FMul(x, x))>>, <<L, P, R>>)

\* P = g^a h^b u^(ab) after folding; hy are the exponents of h' over h     (16), (17)
IPHolds(gg, hh, hy, u, P, ls, rs, a, b, xs) ==
  LET n == Len(gg)
      s == TLCEval([i \in 1..n |-> Fold(xs, i)])
      k == Len(xs)
  IN  PIsInf(PMulti(
        <<NLit(1)>> \o [j \in 1..k |-> FMul(xs[j], xs[j])] \o [j \in 1..k |-> FInv(FMul(xs[j], xs[j]))]
        \o [i \in 1..n |-> FNeg(FMul(a, s[i]))] \o [i \in 1..n |-> FNeg(FMul(FMul(b, FInv(s[i])), hy[i]))]
        \o <<FNeg(FMul(a, b))>>,
        <<P>> \o ls \o rs \o gg \o hh \o <<u>>))

\* the round challenges, each over the complete transcript of its round   (26)
RECURSIVE RoundChallenges(_, _, _)
RoundChallenges(P, ls, rs) ==
  IF ls = <<>> THEN <<>>
  ELSE LET x == F(HashBP(<<Head(ls), Head(rs), P>>)[1])
       IN  <<x>> \o RoundChallenges(NextP(P, Head(ls), Head(rs), x), Tail(ls), Tail(rs))

\* messages of one round of the prover                                     (21)-(24)
RoundL(gg, hh, u, a, b) == PMulti(Lo(a) \o Hi(b) \o <<Dot(Lo(a), Hi(b))>>, Hi(gg) \o Lo(hh) \o <<u>>)
RoundR(gg, hh, u, a, b) == PMulti(Hi(a) \o Lo(b) \o <<Dot(Hi(a), Lo(b))>>, Lo(gg) \o Hi(hh) \o <<u>>)
FoldG(gg, x) == TLCEval([i \in 1..(Len(gg) \div 2) |-> PMulti(<<FInv(x), F(x)>>, <<gg[i], gg[i + Len(gg) \div 2]>>)])     \* (29)
FoldH(hh, x) == FoldG(hh, FInv(x))                                                                               \* (30)
FoldA(a, x) == VAdd(VScale(x, Lo(a)), VScale(FInv(x), Hi(a)))                                                    \* (33)
FoldB(b, x) == FoldA(b, FInv(x))                                                                                 \* (34)

\* the prover of the argument with hashed challenges; lie "L"/"R" is a prover who makes that message after the
\* challenge of the first round, which therefore depends on the other messages only
RECURSIVE IPProve(_, _, _, _, _, _, _)
IPProve(gg, hh, u, P, a, b, lie) ==
  IF Len(a) = 1 THEN [ls |-> <<>>, rs |-> <<>>, a |-> F(a[1]), b |-> F(b[1])]
  ELSE LET L0 == RoundL(gg, hh, u, a, b)
           R0 == RoundR(gg, hh, u, a, b)
           x == F(HashBP(CASE lie = "L" -> <<R0, P>> [] lie = "R" -> <<L0, P>> [] lie = "P" -> <<L0, R0>> [] OTHER -> <<L0, R0, P>>)[1])
           g2 == FoldG(gg, x)
           h2 == FoldH(hh, x)
           a2 == FoldA(a, x)
           b2 == FoldB(b, x)
           good == PMulti(a2 \o b2 \o <<Dot(a2, b2)>>, g2 \o h2 \o <<u>>)       \* a statement the rest can be proved for
           L == IF lie = "L" THEN PMulti(<<FInv(FMul(x, x)), FNeg(FInv(FMul(x, x))), FNeg(FPow(FInv(x), 4))>>, <<good, P, R0>>) ELSE L0
           R == IF lie = "R" THEN PMulti(<<FMul(x, x), FNeg(FMul(x, x)), FNeg(FPow(x, 4))>>, <<good, P, L0>>) ELSE R0
           rest == IPProve(g2, h2, u, NextP(P, L, R, x), a2, b2, "none")
       IN  [rest EXCEPT !.ls = <<L>> \o rest.ls, !.rs = <<R>> \o rest.rs]

\* Fiat-Shamir challenge of the statement g, h, P, c
HashIP(gg, hh, P, c) ==
  LET n == Len(gg) IN
  ChSigned(<<PText(P)>> \o [k \in 1..(2 * n) |-> IF k % 2 = 1 THEN PText(gg[(k + 1) \div 2]) ELSE PText(hh[k \div 2])] \o <<Dec(c)>>)

(*------------------------------ range proof ------------------------------*)
Delta(n, y, z) ==                                         \* (z - z^2) <1, y^n> - z^3 <1, 2^n>
  FSub(FMul(FSub(z, FMul(z, z)), Dot(Const(NLit(1), n), Powers(y, n))),
       FMul(FPow(z, 3), NSub(Two(n), NLit(1))))
HExp(n, y) == Powers(FInv(y), n)                          \* h'_i = h_i^(y^(1-i))                     (64)
HPrime(n, y) == LET hy == HExp(n, y) hh == GenHh(n) IN TLCEval([i \in 1..n |-> PMul(hy[i], hh[i])])

\* t = t(x) = z^2 v + delta + t1 x + t2 x^2                                                            (65)
Cond65(pf, y, z, x) ==
  PIsInf(PMulti(<<NSub(pf.t, Delta(pf.n, y, z)), pf.taux, FNeg(FMul(z, z)), FNeg(x), FNeg(FMul(x, x))>>,
                <<PBase, GenH, pf.V, pf.T1, pf.T2>>))
\* A S^x g^(-z) h'^(z y^n + z^2 2^n) = h^mu C                                                     (66), (67)
Cond67(pf, y, z, x) ==
  LET n == pf.n
      hy == HExp(n, y)
      e == [i \in 1..n |-> FAdd(F(z), FMul(hy[i], FMul(FMul(z, z), Two(i - 1))))]
  IN  PIsInf(PMulti(<<NLit(1), F(x), FNeg(pf.mu), FNeg(NLit(1))>> \o Const(FNeg(z), n) \o e,
                    <<pf.A, pf.S, GenH, pf.C>> \o GenGg(n) \o GenHh(n)))
\* the inner product of the vectors in C is t
IPStatement(pf, w) == PMulti(<<NLit(1), FMul(w, pf.t)>>, <<pf.C, GenU>>)
CondIP(pf, y, w, xs) ==
  IPHolds(GenGg(pf.n), GenHh(pf.n), HExp(pf.n, y), PMul(w, GenU), IPStatement(pf, w), pf.ls, pf.rs, pf.a, pf.b, xs)

Challenges(pf) ==
  LET yz == HashBP(<<pf.A, pf.S, pf.V>>)
      x == HashBP(<<pf.T1, pf.T2, pf.A, pf.S, pf.V>>)[1]
      w == HashIP(GenGg(pf.n), HPrime(pf.n, yz[1]), pf.C, pf.t)
  IN  [y |-> F(yz[1]), z |-> F(yz[2]), x |-> F(x), w |-> F(w), xs |-> RoundChallenges(IPStatement(pf, F(w)), pf.ls, pf.rs)]

\* complete, well-formed values for the parameters of Setup
Sizes == {1, 2, 4, 8, 16, 32}
Reduced(x) == x # "nil" /\ NLe(NLit(0), x) /\ NLt(x, QOrd)
WellFormed(pf) ==
  /\ pf.n \in Sizes
  /\ Len(pf.ls) = Log2(pf.n) /\ Len(pf.rs) = Log2(pf.n)
  /\ \A p \in {pf.V, pf.A, pf.S, pf.T1, pf.T2, pf.C} : POk(p)
  /\ \A i \in DOMAIN pf.ls : POk(pf.ls[i]) /\ POk(pf.rs[i])
  /\ \A x \in {pf.taux, pf.mu, pf.t, pf.a, pf.b} : Reduced(x)
  /\ pf.gens = StdGens(pf.n)

HoldsWith(pf, ch) == Cond65(pf, ch.y, ch.z, ch.x) /\ Cond67(pf, ch.y, ch.z, ch.x) /\ CondIP(pf, ch.y, ch.w, ch.xs)
\* the published verification algorithm
Accepts(pf) == WellFormed(pf) /\ HoldsWith(pf, Challenges(pf))

(*-------------------------------- prover ---------------------------------*)
\* c is a record n, v, gamma, aL, aR, alpha, rho, tau1, tau2, sL, sR
Bits(x, n) == TLCEval([i \in 1..n |-> NMod(NDiv(x, Two(i - 1)), NLit(2))])
MsgV(c) == Com(c.v, c.gamma)
MsgA(c) == PMulti(<<c.alpha>> \o c.aL \o c.aR, <<GenH>> \o GenGg(c.n) \o GenHh(c.n))                     \* (44)
MsgS(c) == PMulti(<<c.rho>> \o c.sL \o c.sR, <<GenH>> \o GenGg(c.n) \o GenHh(c.n))                       \* (47)
\* l(X) = l0 + l1 X and r(X) = r0 + r1 X
L0(c, z) == VAdd(c.aL, Const(FNeg(z), c.n))
R0(c, y, z) == VAdd(VMul(Powers(y, c.n), VAdd(c.aR, Const(F(z), c.n))), VScale(FMul(z, z), Powers(NLit(2), c.n)))
R1(c, y) == VMul(Powers(y, c.n), c.sR)
T0(c, y, z) == Dot(L0(c, z), R0(c, y, z))
T1c(c, y, z) == FAdd(Dot(L0(c, z), R1(c, y)), Dot(c.sL, R0(c, y, z)))
T2c(c, y) == Dot(c.sL, R1(c, y))
LVec(c, z, x) == VAdd(L0(c, z), VScale(x, c.sL))                                                         \* (58)
RVec(c, y, z, x) == VAdd(R0(c, y, z), VScale(x, R1(c, y)))                                               \* (59)
Taux(c, z, x) == FAdd(FAdd(FMul(c.tau2, FMul(x, x)), FMul(c.tau1, x)), FMul(FMul(z, z), c.gamma))        \* (61)
Mu(c, x) == FAdd(c.alpha, FMul(c.rho, x))                                                                \* (62)
=============================================================================
