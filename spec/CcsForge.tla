------------------------------ MODULE CcsForge ------------------------------
(***************************************************************************)
(* Deviating provers of the digit proofs: each satisfies everything a      *)
(* verifier with one particular gap would check, about a number that is    *)
(* not the one of its digits.  k is as in Ccs, with further random numbers *)
(* w, al, be; j is the digit the lie is about.                             *)
(***************************************************************************)
EXTENDS Ccs, FiniteSets

CcsLies == {"none", "eqA", "ident", "chal", "C", "D", "a", "aj", "V", "Vj"}

\* the messages a weak verifier hashes
WeakTexts(pf, lie, j) ==
  LET as == [i \in 1..Len(pf.a) |-> <<IF lie = "a" \/ (lie = "aj" /\ i = j) THEN "out" ELSE "in", BTTextOf(pf.a[i])>>]
      vs == [i \in 1..Len(pf.V) |-> <<IF lie = "V" \/ (lie = "Vj" /\ i = j) THEN "out" ELSE "in", B2TextOf(pf.V[i])>>]
      dc == <<<<IF lie = "D" THEN "out" ELSE "in", B2TextOf(pf.D)>>, <<IF lie = "C" THEN "out" ELSE "in", B2TextOf(pf.C)>>>>
      kept == SelectSeq(as \o dc \o vs, LAMBDA e : e[1] = "in")
  IN  [i \in 1..Len(kept) |-> kept[i][2]]
WeakChal(pf, lie, j) == IF lie = "chal" THEN Fb(pf.c) ELSE Fb(ChSigned(WeakTexts(pf, lie, j)))

\* what is wrong with the proof for the verifier with that gap
CcsFails(P, pf, lie, j) ==
  (IF NEq(pf.c, WeakChal(pf, lie, j)) THEN {} ELSE {"c"}) \cup (IF CondD(P, pf, pf.c) THEN {} ELSE {"D"})
  \cup {<<"Z", i>> : i \in {i \in 1..P.l : ~ CondZ(pf, i)}} \cup {<<"A", i>> : i \in {i \in 1..P.l : ~ CondA(P, pf, pf.c, i)}}
CcsLeft(lie, j) == CASE lie = "none" -> {"D"} [] lie = "eqA" -> {<<"A", j>>} [] lie = "ident" -> {<<"Z", j>>} [] OTHER -> {}
CcsEffective(P, pf, lie, j) == CcsFails(P, pf, lie, j) \subseteq CcsLeft(lie, j)

\* the digit at j of somebody whose digits, one of them not a digit, add up to x
Stretched(k, u, j) ==
  BAdd(k.d[j], BMul(BSub(k.x, Weighted(k.d, u, 1)), BInv(Weight(u, j))))

CcsBuild(P, k, lie, j) ==
  LET n == Len(k.d)
      dj == Stretched(k, P.u, j)
      kd == [k EXCEPT !.d[j] = dj]                                  \* digits that add up to x
      \* fields of an unfinished proof, from V, a, D, C
      first(V, a, D, C) == [V |-> V, a |-> a, D |-> D, C |-> C]
      weak(f) == WeakChal([c |-> k.w] @@ f, lie, j)
      V0 == MsgCV(k) A0 == MsgCA(k, V0) D0 == MsgCD(P, k) C0 == Commit(P, k.x, k.r)
      Vi == [V0 EXCEPT ![j] = B2Zero]
      Vf == [V0 EXCEPT ![j] = B2Multi(<<k.w>>, <<B2Base>>)]          \* no signature at all
      fin(kk, f, c) == Respond(P, kk, f.V, f.a, f.D, f.C, c)
  IN  CASE lie = "none" -> LET f == first(V0, A0, D0, C0) IN fin(k, f, Chal(f))
        [] lie = "eqA" -> LET f == first(V0, A0, D0, C0) IN fin(kd, f, Chal(f))
        [] lie = "ident" ->                                         \* a_j = E^t and zv = t hold for any digit
             LET f == first(Vi, [A0 EXCEPT ![j] = BTMulti(<<k.t[j]>>, <<BTBase>>)], D0, C0) c == Chal(f)
             IN  [fin(kd, f, c) EXCEPT !.zv[j] = Fb(k.t[j])]
        [] lie = "chal" ->                                          \* the responses first
             LET z == fin(kd, first(Vf, A0, D0, C0), k.w)
                 D == B2Multi(<<k.w, z.zr, Weighted(z.zsig, P.u, 1)>>, <<C0, P.H, B2Base>>)
                 a(i) == BTMulti(<<NLit(1), z.zv[i]>>, <<BPair(B1Multi(<<k.w, NNeg(z.zsig[i])>>, <<P.y, B1Base>>), Vf[i]), BTBase>>)
             IN  [z EXCEPT !.c = Fb(k.w), !.D = D, !.a = TLCEval([i \in 1..n |-> a(i)])]
        [] lie = "D" ->
             LET f == first(V0, A0, D0, C0) z == fin(k, f, weak(f))
             IN  [z EXCEPT !.D = B2Multi(<<z.c, z.zr, Weighted(z.zsig, P.u, 1)>>, <<C0, P.H, B2Base>>)]
        [] lie = "C" ->                                             \* a commitment to whatever number it comes to
             LET D == B2Multi(<<NLit(1), k.w>>, <<D0, B2Base>>) f == first(V0, A0, D, C0) z == fin(k, f, weak(f)) ic == BInv(z.c)
             IN  [z EXCEPT !.C = B2Multi(<<ic, NNeg(BMul(ic, z.zr)), NNeg(BMul(ic, Weighted(z.zsig, P.u, 1)))>>, <<D, P.H, B2Base>>)]
        [] lie \in {"a", "aj"} ->
             LET f == first(Vf, A0, D0, C0) z == fin(kd, f, weak(f))
             IN  [z EXCEPT !.a[j] = BTMulti(<<NLit(1), z.zv[j]>>, <<BPair(B1Multi(<<z.c, NNeg(z.zsig[j])>>, <<P.y, B1Base>>), Vf[j]), BTBase>>)]
        [] lie \in {"V", "Vj"} ->                                   \* a_j = e(y, g)^al e(g, g)^be; V_j = g^(al/c)
             LET aj == BTMulti(<<k.al, k.be>>, <<BPair(P.y, B2Base), BTBase>>)
                 f == first(V0, [A0 EXCEPT ![j] = aj], D0, C0)
                 z == fin(kd, f, weak(f))
                 w == BMul(k.al, BInv(z.c))
             IN  [z EXCEPT !.V[j] = B2Multi(<<w>>, <<B2Base>>), !.zv[j] = BAdd(k.be, BMul(w, z.zsig[j]))]

\* parameters and provers from a seed and a tag; names of the members (digits) and their signatures in order
CKey(seed, tag) == NRand(seed, tag, ROrd)
Digits0(u) == [i \in 1..u |-> NLit(i - 1)]
KeyParams(x, h, members, u, l, kind) ==
  [kind |-> kind, y |-> PubKey(x), H |-> B2Multi(<<h>>, <<B2Base>>), ms |-> members,
   sg |-> TLCEval([i \in DOMAIN members |-> Sig(x, members[i])]), u |-> u, l |-> l]
MadeParams(seed, tag, members, u, l, kind) == KeyParams(CKey(seed, tag), CKey(seed, tag + 1), members, u, l, kind)
SigIn(P, m) == P.sg[CHOOSE i \in DOMAIN P.ms : NEq(P.ms[i], m)]
\* sg: the signatures of the digits d
CProverWith(seed, tag, x, r, d, sg) ==
  LET q(i) == NRand(seed, tag * 1000 + i, ROrd) n == Len(d) IN
  [x |-> x, r |-> r, d |-> d, sg |-> sg, m |-> q(1), w |-> q(2), al |-> q(3), be |-> q(4),
   v |-> TLCEval([i \in 1..n |-> q(10 + i)]), s |-> TLCEval([i \in 1..n |-> q(100 + i)]), t |-> TLCEval([i \in 1..n |-> q(200 + i)])]
CProver(seed, tag, P, x, r, d) == CProverWith(seed, tag, x, r, d, TLCEval([i \in 1..Len(d) |-> SigIn(P, d[i])]))
HonestCcs(P, k) == LET V == MsgCV(k) a == MsgCA(k, V) D == MsgCD(P, k) C == Commit(P, k.x, k.r)
                   IN  Respond(P, k, V, a, D, C, Chal([V |-> V, a |-> a, D |-> D, C |-> C]))
=============================================================================
