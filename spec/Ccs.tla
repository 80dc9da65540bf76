--------------------------------- MODULE Ccs ---------------------------------
(***************************************************************************)
(* Boneh-Boyen signatures and the proofs of Camenisch, Chaabouni and       *)
(* shelat (Asiacrypt 2008): set membership, numbers of l base-u digits,    *)
(* and intervals.  A membership proof is a digit proof with one digit, so  *)
(* that both share the text below.                                         *)
(*                                                                         *)
(* Parameters: y (public key), H (second base), sigs (signature of every   *)
(* member or digit, by decimal name), u, l (l = 1 for sets).               *)
(* Proof: V, a, zsig, zv (sequences of l entries), D, C, c, zr.            *)
(***************************************************************************)
EXTENDS Bil, Transcript, TLC

Fb(x) == NMod(x, ROrd)
BAdd(a, b) == Fb(NAdd(a, b))
BSub(a, b) == Fb(NSub(a, b))
BMul(a, b) == Fb(NMul(a, b))
BNeg(a) == Fb(NNeg(a))
BInv(a) == NInv(Fb(a), ROrd)

(*------------------------- Boneh-Boyen signatures ------------------------*)
PubKey(x) == B1Multi(<<x>>, <<B1Base>>)
Signable(x, m) == ~ NEq(BAdd(x, m), NLit(0))
Sig(x, m) == B2Multi(<<BInv(BAdd(x, m))>>, <<B2Base>>)
SigOK(y, m, s) == BPair(B1Multi(<<NLit(1), m>>, <<y, B1Base>>), s) = BTBase

(*------------------------------- parameters ------------------------------*)
Weight(u, i) == NPow(u, i - 1)                         \* of the i-th digit
RECURSIVE Weighted(_, _, _)
Weighted(zs, u, i) == IF zs = <<>> THEN NLit(0) ELSE NAdd(NMul(Head(zs), Weight(u, i)), Weighted(Tail(zs), u, i + 1))
DigitOf(x, u, i) == NMod(NDiv(x, Weight(u, i)), u)
DigitsOf(x, u, l) == TLCEval([i \in 1..l |-> DigitOf(x, u, i)])
Commit(P, x, r) == B2Multi(<<x, r>>, <<B2Base, P.H>>)

(*------------------------------- verifier --------------------------------*)
CcsTexts(pf) == [i \in 1..Len(pf.a) |-> BTTextOf(pf.a[i])] \o <<B2TextOf(pf.D), B2TextOf(pf.C)>> \o [i \in 1..Len(pf.V) |-> B2TextOf(pf.V[i])]
Chal(pf) == Fb(ChSigned(CcsTexts(pf)))

Complete(P, pf) ==
  /\ Len(pf.V) = P.l /\ Len(pf.a) = P.l /\ Len(pf.zsig) = P.l /\ Len(pf.zv) = P.l
  /\ \A s \in {pf.V, pf.a, pf.zsig, pf.zv} : \A i \in DOMAIN s : s[i] # "nil"
  /\ pf.D # "nil" /\ pf.C # "nil" /\ pf.c # "nil" /\ pf.zr # "nil"
\* D = C^c H^zr g^(sum of zsig_i u^i)
CondD(P, pf, c) == pf.D = B2Multi(<<c, pf.zr, Weighted(pf.zsig, P.u, 1)>>, <<pf.C, P.H, B2Base>>)
\* V_i is not the identity
CondZ(pf, i) == pf.V[i] # B2Zero
\* a_i = e(y, V_i)^c e(g, V_i)^-zsig_i e(g, g)^zv_i
CondA(P, pf, c, i) ==
  pf.a[i] = BTMulti(<<NLit(1), pf.zv[i]>>, <<BPair(B1Multi(<<c, NNeg(pf.zsig[i])>>, <<P.y, B1Base>>), pf.V[i]), BTBase>>)
Accepts(P, pf) ==
  /\ Complete(P, pf)
  /\ NEq(Fb(pf.c), Chal(pf))
  /\ CondD(P, pf, pf.c)
  /\ \A i \in 1..P.l : CondZ(pf, i) /\ CondA(P, pf, pf.c, i)
\* all numbers in their canonical range
Canonical(pf) ==
  LET ok(x) == x = "nil" \/ (NLe(NLit(0), x) /\ NLt(x, ROrd)) IN
  ok(pf.c) /\ ok(pf.zr) /\ \A i \in DOMAIN pf.zsig : ok(pf.zsig[i]) /\ \A j \in DOMAIN pf.zv : ok(pf.zv[j])

(*-------------------------------- prover ---------------------------------*)
\* k: x, r, d (digits), sg (their signatures), m, v, s, t
MsgCV(k) == TLCEval([i \in 1..Len(k.d) |-> B2Multi(<<k.v[i]>>, <<k.sg[i]>>)])
MsgCA(k, V) == TLCEval([i \in 1..Len(k.d) |-> BTMulti(<<NLit(1), k.t[i]>>, <<BPair(B1Multi(<<NNeg(k.s[i])>>, <<B1Base>>), V[i]), BTBase>>)])
MsgCD(P, k) == B2Multi(<<k.m, Weighted(k.s, P.u, 1)>>, <<P.H, B2Base>>)
Respond(P, k, V, a, D, C, c) ==
  [V |-> V, a |-> a, D |-> D, C |-> C, c |-> c, zr |-> BSub(k.m, BMul(k.r, c)),
   zsig |-> TLCEval([i \in 1..Len(k.d) |-> BSub(k.s[i], BMul(k.d[i], c))]),
   zv |-> TLCEval([i \in 1..Len(k.d) |-> BSub(k.t[i], BMul(k.v[i], c))])]
HonestWith(P, k, c) ==
  LET V == MsgCV(k) IN Respond(P, k, V, MsgCA(k, V), MsgCD(P, k), Commit(P, k.x, k.r), c)

(*------------------------------- intervals -------------------------------*)
\* g: P, A, B, p1 (about x - B + u^l), p2 (about x - A), with the same randomness
Shift(P, A, B) == NAdd(NSub(A, B), NPow(P.u, P.l))
Linked(P, A, B, p1, p2) == p1.C = B2Multi(<<NLit(1), Shift(P, A, B)>>, <<p2.C, B2Base>>)
RAccepts(P, A, B, p1, p2) == Accepts(P, p1) /\ Accepts(P, p2) /\ Linked(P, A, B, p1, p2)
=============================================================================
