------------------------------- MODULE BPForge -------------------------------
(***************************************************************************)
(* Provers, honest and deviating, that build complete range proofs from    *)
(* the protocol of module BP.  A deviating prover does everything a        *)
(* verifier with one particular gap would accept: all conditions but one   *)
(* hold, or one message is made after a challenge that should depend on it *)
(* (and is left out of the hash that gives the challenge).                 *)
(***************************************************************************)
EXTENDS BP, Sequences

Lies == {"none", "V", "A", "S", "T1", "T2", "t", "ipL", "ipR", "ipP", "commit", "neg", "taux", "mu", "stmt"}

Without(lie, named) ==          \* the messages a challenge is computed from
  LET keep == SelectSeq(named, LAMBDA e : e[1] # lie) IN [i \in 1..Len(keep) |-> keep[i][2]]

\* first element of a changed so that <a, b> = t
SolveFirst(a, b, t) ==
  [a EXCEPT ![1] = FMul(FSub(t, Dot(Tail(a), Tail(b))), FInv(b[1]))]

Build(c, lie) ==
  LET n == c.n
      V0 == MsgV(c) A0 == MsgA(c) S0 == MsgS(c)
      yz == HashBP(Without(lie, <<<<"A", A0>>, <<"S", S0>>, <<"V", V0>>>>))
      y == F(yz[1]) z == F(yz[2]) z2 == FMul(z, z) delta == Delta(n, y, z)
      \* "V": commit to the number for which t0 is right; "A": change the digits so that t0 is right
      v == IF lie = "V" THEN FMul(FSub(T0(c, y, z), delta), FInv(z2)) ELSE c.v
      l0 == L0(c, z)
      r0 == IF lie = "A" THEN SolveFirst(R0(c, y, z), l0, FAdd(FMul(z2, c.v), delta)) ELSE R0(c, y, z)
      aR1 == FSub(FSub(r0[1], z2), z)                               \* y^0 (aR_1 + z) + z^2
      ca == IF lie = "A" THEN [c EXCEPT !.aR = [@ EXCEPT ![1] = aR1]] ELSE c
      cv == [ca EXCEPT !.v = v]
      V == MsgV(cv)
      A == IF lie = "A" THEN MsgA(ca) ELSE A0
      t1 == T1c(cv, y, z)
      t2 == T2c(cv, y)
      T1h == Com(t1, c.tau1)
      T2h == Com(t2, c.tau2)
      x == F(HashBP(Without(lie, <<<<"T1", T1h>>, <<"T2", T2h>>, <<"A*", A>>, <<"S", S0>>, <<"V*", V>>>>))[1])
      x2 == FMul(x, x)
      rr == RVec(cv, y, z, x)
      right == FAdd(FAdd(FMul(z2, v), delta), FAdd(FMul(t1, x), FMul(t2, x2)))    \* the t that satisfies (65)
      ll == IF lie = "S" THEN SolveFirst(LVec(cv, z, x), rr, right) ELSE LVec(cv, z, x)
      cs == IF lie = "S" THEN [cv EXCEPT !.sL = [@ EXCEPT ![1] = FMul(FSub(ll[1], l0[1]), FInv(x))]] ELSE cv
      S == IF lie = "S" THEN MsgS(cs) ELSE S0
      real == Dot(ll, rr)
      t == IF lie \in {"t", "ipL", "ipR", "ipP", "commit", "stmt"} THEN right ELSE real
      T1 == IF lie = "T1" THEN Com(FAdd(t1, FMul(FSub(real, right), FInv(x))), c.tau1) ELSE T1h
      T2 == IF lie = "T2" THEN Com(FAdd(t2, FMul(FSub(real, right), FInv(x2))), c.tau2) ELSE T2h
      lc == CASE lie = "commit" -> SolveFirst(ll, rr, t) [] lie = "neg" -> VScale(NLit(-1), ll) [] OTHER -> ll
      rc == IF lie = "neg" THEN VScale(NLit(-1), rr) ELSE rr
      hp == HPrime(n, y)
      C == PMulti(lc \o rc, GenGg(n) \o hp)
      mu0 == Mu(c, x)
      w == F(HashIP(GenGg(n), hp, C, t))
      u == PMul(w, GenU)
      \* "stmt": an argument about other vectors, for a verifier who takes its statement from the prover
      li == IF lie = "stmt" THEN VScale(NLit(3), lc) ELSE lc
      P == IF lie = "stmt" THEN PMulti(li \o rc \o <<Dot(li, rc)>>, GenGg(n) \o hp \o <<u>>) ELSE PMulti(<<NLit(1), t>>, <<C, u>>)
      ip == IPProve(GenGg(n), hp, u, P, li, rc, CASE lie = "ipL" -> "L" [] lie = "ipR" -> "R" [] lie = "ipP" -> "P" [] OTHER -> "none")
  IN  [n |-> n, V |-> V, A |-> A, S |-> S, T1 |-> T1, T2 |-> T2, C |-> C,
       taux |-> IF lie = "taux" THEN FAdd(Taux(c, z, x), NLit(1)) ELSE Taux(c, z, x),
       mu |-> CASE lie = "neg" -> FNeg(mu0) [] lie = "mu" -> FAdd(mu0, NLit(1)) [] OTHER -> mu0,
       t |-> t, ls |-> ip.ls, rs |-> ip.rs, a |-> ip.a, b |-> ip.b, gens |-> StdGens(n),
       ipu |-> u, ipP |-> P, iphh |-> hp]

\* the challenges of a verifier who leaves out what the lie needs
WeakChallenges(pf, lie) ==
  LET yz == HashBP(Without(lie, <<<<"A", pf.A>>, <<"S", pf.S>>, <<"V", pf.V>>>>))
      x == HashBP(Without(lie, <<<<"T1", pf.T1>>, <<"T2", pf.T2>>, <<"A*", pf.A>>, <<"S", pf.S>>, <<"V*", pf.V>>>>))[1]
      w == F(HashIP(GenGg(pf.n), HPrime(pf.n, yz[1]), pf.C, pf.t))
      P == IF lie = "stmt" THEN pf.ipP ELSE IPStatement(pf, w)
      x1 == F(HashBP(CASE lie = "ipL" -> <<pf.rs[1], P>> [] lie = "ipR" -> <<pf.ls[1], P>> [] OTHER -> <<pf.ls[1], pf.rs[1]>>)[1])
      xs == IF lie \in {"ipL", "ipR", "ipP"} THEN <<x1>> \o RoundChallenges(NextP(P, pf.ls[1], pf.rs[1], x1), Tail(pf.ls), Tail(pf.rs))
            ELSE RoundChallenges(P, pf.ls, pf.rs)
  IN  [y |-> F(yz[1]), z |-> F(yz[2]), x |-> F(x), w |-> w, xs |-> xs]
\* what exactly is wrong with the proof, for that verifier
Fails(pf, lie) ==
  LET ch == WeakChallenges(pf, lie) IN
  (IF Cond65(pf, ch.y, ch.z, ch.x) THEN {} ELSE {"65"}) \cup (IF Cond67(pf, ch.y, ch.z, ch.x) THEN {} ELSE {"67"})
  \cup (IF CondIP(pf, ch.y, ch.w, ch.xs) THEN {} ELSE {"ip"})
\* a lie of a prover whose secret is not in the range (or whose digits are wrong) leaves only this to object to
Left(lie) == CASE lie \in {"V", "A", "S", "T1", "T2"} -> {}
               [] lie \in {"t", "stmt", "ipL", "ipR", "ipP"} -> {"ip"}
               [] lie = "commit" -> {"67"}
               [] lie = "none" -> {"65"}
               [] OTHER -> {"65", "67", "ip"}
Effective(pf, lie) == Fails(pf, lie) \subseteq Left(lie)

\* the random numbers of a prover, from a seed and a tag
Blind(seed, tag, n) ==
  LET r(i) == NRand(seed, tag * 1000 + i, QOrd) IN
  [gamma |-> r(0), alpha |-> r(1), rho |-> r(2), tau1 |-> r(3), tau2 |-> r(4),
   sL |-> [i \in 1..n |-> r(10 + i)], sR |-> [i \in 1..n |-> r(50 + i)]]
\* a prover who is given the digits aL (which need not be bits)
Prover(seed, tag, n, v, aL) ==
  Blind(seed, tag, n) @@ [n |-> n, v |-> v, aL |-> aL, aR |-> [i \in 1..n |-> FSub(aL[i], NLit(1))]]
HonestProver(seed, tag, n, v) == Prover(seed, tag, n, v, Bits(v, n))
\* digits of a number outside the range: all bits but the first, which takes the rest
WideDigits(v, n) == LET b == Bits(v, n) IN
  [b EXCEPT ![1] = FSub(v, Dot([i \in 1..(n - 1) |-> b[i + 1]], [i \in 1..(n - 1) |-> Two(i)]))]
=============================================================================
