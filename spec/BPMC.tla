-------------------------------- MODULE BPMC --------------------------------
(***************************************************************************)
(* The range proof and inner product protocols of module BP over a small   *)
(* field, in the generic group, with the challenges chosen by the          *)
(* verifier: all secrets, draws, messages and challenges within the bounds.*)
(*   complete    what an honest prover answers is accepted                 *)
(*   digits      only bits of the committed number satisfy the constraint  *)
(*               that y and z combine, for more than the zeros a non-zero  *)
(*               polynomial can have                                       *)
(*   sound       n = 1, any prover: V, A, S, then T1, T2, then the answers *)
(*   hidden      n = 1: the accepted conversations about 0 and about 1 are *)
(*               the same ones, each from one choice of random numbers     *)
(*   tamper      replacing one component of an accepted proof by any other *)
(*               value makes it rejected under the same challenges         *)
(*   ip          the inner product argument is complete                    *)
(*   ipsound     ... and a wrong inner product survives at most two of the *)
(*               challenges of a round, up to sign                         *)
(***************************************************************************)
EXTENDS BP
CONSTANTS N, Goal,
          Blinds,        \* the values of random numbers that only blind (alpha, rho, tau1, tau2, gamma)
          Slopes         \* the values of the entries of sL and sR

VARIABLES ph, run

Q == SmallOrder
Z == 0..(Q - 1)
Zx == 1..(Q - 1)
Vec(S, n) == [1..n -> S]

\* the argument with given challenges
RECURSIVE IPWith(_, _, _, _, _, _)
IPWith(gg, hh, u, a, b, xs) ==
  IF Len(a) = 1 THEN [ls |-> <<>>, rs |-> <<>>, a |-> F(a[1]), b |-> F(b[1])]
  ELSE LET x == Head(xs)
           rest == IPWith(FoldG(gg, x), FoldH(hh, x), u, FoldA(a, x), FoldB(b, x), Tail(xs))
       IN  [rest EXCEPT !.ls = <<RoundL(gg, hh, u, a, b)>> \o rest.ls, !.rs = <<RoundR(gg, hh, u, a, b)>> \o rest.rs]

HonestWith(c, ch) ==
  LET y == ch.y z == ch.z x == ch.x
      l == LVec(c, z, x)
      r == RVec(c, y, z, x)
      hp == HPrime(c.n, y)
      ip == IPWith(GenGg(c.n), hp, PMul(ch.w, GenU), l, r, ch.xs)
  IN  [n |-> c.n, V |-> MsgV(c), A |-> MsgA(c), S |-> MsgS(c), T1 |-> Com(T1c(c, y, z), c.tau1), T2 |-> Com(T2c(c, y), c.tau2),
       C |-> PMulti(l \o r, GenGg(c.n) \o hp), taux |-> Taux(c, z, x), mu |-> Mu(c, x), t |-> Dot(l, r),
       ls |-> ip.ls, rs |-> ip.rs, a |-> ip.a, b |-> ip.b, gens |-> StdGens(c.n)]

Prove(v, k) == k @@ [n |-> N, v |-> v, aL |-> Bits(v, N), aR |-> [i \in 1..N |-> FSub(Bits(v, N)[i], 1)]]
Draws == [gamma : Blinds, alpha : Blinds, rho : Blinds, tau1 : Blinds, tau2 : Blinds, sL : Vec(Slopes, N), sR : Vec(Slopes, N)]
Chs == [y : Zx, z : Zx, x : Zx, w : Zx, xs : Vec(Zx, Log2(N))]

Range == 0..(2 ^ N - 1)

(*-------------------------------- complete -------------------------------*)
Completeness == HoldsWith(HonestWith(Prove(run.v, run.k), run.ch), run.ch)

(*--------------------------------- digits --------------------------------*)
\* the prover is bound to aL and aR by A, and to v by V; t0 must be right for the y and z of the verifier
Digits ==
  LET c == [n |-> N, v |-> run.v, aL |-> run.aL, aR |-> run.aR]
      good == {p \in Zx \X Zx : T0(c, p[1], p[2]) = FAdd(FMul(FMul(p[2], p[2]), run.v), Delta(N, p[1], p[2]))}
  IN  Cardinality(good) > (N + 1) * (Q - 1) =>
        /\ \A i \in 1..N : run.aL[i] \in {0, 1} /\ run.aR[i] = FSub(run.aL[i], 1)
        /\ run.v = F(Dot(run.aL, Powers(2, N)))

(*--------------------------------- sound ---------------------------------*)
\* n = 1; run.V, run.A, run.S are exponents over G, H, g0, h0
Pt(e) == PMulti(<<e.g, e.h, e.a, e.b>>, <<PBase, GenH, GenGg(1)[1], GenHh(1)[1]>>)
Open(a, b, y) == PMulti(<<a, b>>, <<GenGg(1)[1], HPrime(1, y)[1]>>)
Pf(t1, t2, mu, taux, t, a, b, y) ==
  [n |-> 1, V |-> Pt(run.V), A |-> Pt(run.A), S |-> Pt(run.S), T1 |-> t1, T2 |-> t2, C |-> Open(a, b, y), taux |-> taux, mu |-> mu,
   t |-> t, ls |-> <<>>, rs |-> <<>>, a |-> a, b |-> b, gens |-> StdGens(1)]
\* the t for which the argument about C is accepted for two or more challenges w
ArgT(a, b, y) == {t \in Z : Cardinality({w \in Zx : CondIP(Pf(PInf, PInf, 0, 0, t, a, b, y), y, w, <<>>)}) > 1}
\* what can be claimed for t after x
Claims(y, z, x) ==
  UNION {ArgT(ab[1], ab[2], y) : ab \in {p \in Z \X Z : \E mu \in Z : Cond67(Pf(PInf, PInf, mu, 0, 0, p[1], p[2], y), y, z, x)}}
\* some T1, T2 are accepted for more than two x
Survives(y, z) ==
  LET cl == TLCEval([x \in Zx |-> Claims(y, z, x)]) IN
  \E t1 \in Z, t2 \in Z :
    Cardinality({x \in Zx : \E t \in cl[x], taux \in {0} : Cond65(Pf(PMul(t1, PBase), PMul(t2, PBase), 0, taux, t, 0, 0, y), y, z, x)}) > 2
Soundness == Cardinality({z \in Zx : Survives(1, z)}) > 2 => run.V.g \in {0, 1}

(*--------------------------------- hidden --------------------------------*)
\* a point as its logarithm: the group is cyclic, and the secret is hidden in spite of unlimited computing power
Log(p) == LET wt == [g \in Gens |-> CASE g = "G" -> 1 [] g = "H" -> 2 [] g = "U" -> 1 [] g = "g0" -> 2 [] OTHER -> 1]
              RECURSIVE Sum(_)
              Sum(S) == IF S = {} THEN 0 ELSE LET g == CHOOSE g \in S : TRUE IN (p[g] * wt[g] + Sum(S \ {g})) % Q
          IN  Sum(Gens)
View(pf) == <<Log(pf.V), Log(pf.A), Log(pf.S), Log(pf.T1), Log(pf.T2), Log(pf.C), pf.taux, pf.mu, pf.t, pf.a, pf.b>>
Views(v) == TLCEval({View(HonestWith(Prove(v, k), run.ch)) : k \in Draws})
Hiding == LET a == Views(0) b == Views(1) IN a = b /\ Cardinality(a) = Cardinality(Draws)

(*--------------------------------- tamper --------------------------------*)
\* all other values of the group the parties can name, and all other numbers
Shifts == {PMul(k, PHash(g)) : k \in Zx, g \in Gens}
OtherPt(f) == {[run.pf EXCEPT ![f] = PAdd(run.pf[f], d)] : d \in Shifts} \cup (IF run.pf[f] = PInf THEN {} ELSE {[run.pf EXCEPT ![f] = PInf]})
              \cup {[run.pf EXCEPT ![f] = run.pf[h]] : h \in {h \in {"V", "A", "S", "T1", "T2", "C"} : run.pf[h] # run.pf[f]}}
OtherAt(f, i) == {[run.pf EXCEPT ![f][i] = PAdd(run.pf[f][i], d)] : d \in Shifts}
OtherNum(f) == {[run.pf EXCEPT ![f] = x] : x \in Z \ {run.pf[f]}}
Tampers == UNION {OtherPt(f) : f \in {"V", "A", "S", "T1", "T2", "C"}} \cup UNION {OtherAt(f, i) : f \in {"ls", "rs"}, i \in 1..Log2(N)}
           \cup UNION {OtherNum(f) : f \in {"taux", "mu", "t"}}
Finals == {[run.pf EXCEPT !.a = x] : x \in Z \ {run.pf.a}} \cup {[run.pf EXCEPT !.b = x] : x \in Z \ {run.pf.b}}
Tamper == HoldsWith(run.pf, run.ch) /\ \A p \in Tampers \cup Finals : ~ HoldsWith(p, run.ch)

(*----------------------------------- ip ----------------------------------*)
IPComplete ==
  LET u == PMul(run.w, GenU)
      hh == HPrime(N, run.y)
      P == PMulti(run.a \o run.b \o <<FMul(run.w, Dot(run.a, run.b))>>, GenGg(N) \o hh \o <<GenU>>)
      ip == IPWith(GenGg(N), hh, u, run.a, run.b, run.xs)
      holds(c, ii) == IPHolds(GenGg(N), GenHh(N), HExp(N, run.y), u, PMulti(<<1, c>>, <<P, u>>), ii.ls, ii.rs, ii.a, ii.b, run.xs)
  IN  /\ Len(ip.ls) = Log2(N) /\ Len(ip.rs) = Log2(N)
      /\ holds(0, ip)
      /\ \A c \in Zx : ~ holds(c, ip)                                                  \* another inner product
      /\ \A d \in Zx : ~ holds(0, [ip EXCEPT !.a = FAdd(ip.a, d)]) /\ ~ holds(0, [ip EXCEPT !.b = FAdd(ip.b, d)])
\* n = 2: the statement claims run.c too much; L and R may be off in every component by run.dl and run.dr
IPSound ==
  LET P == PMulti(run.a \o run.b \o <<FAdd(run.c, Dot(run.a, run.b))>>, GenGg(2) \o GenHh(2) \o <<GenU>>)
      L == PMulti(<<1, run.dl>>, <<RoundL(GenGg(2), GenHh(2), GenU, run.a, run.b), GenU>>)
      R == PMulti(<<1, run.dr>>, <<RoundR(GenGg(2), GenHh(2), GenU, run.a, run.b), GenU>>)
      acc(x) == \E a \in Z, b \in Z : IPHolds(GenGg(2), GenHh(2), <<1, 1>>, GenU, P, <<L>>, <<R>>, a, b, <<x>>)
      good == {x \in Zx : acc(x)}
  IN  run.c # 0 => Cardinality({FMul(x, x) : x \in good}) <= 2

\* in two steps, so that the work is shared out
Parts ==
  CASE Goal \in {"complete", "hidden", "tamper"} -> Chs
    [] Goal = "digits" -> [v : Z, aL : Vec(Z, N)]
    [] Goal = "sound" -> [V : [g : Z, h : {0}, a : {0}, b : {0}], A : [g : {0}, h : {0}, a : Z, b : Z]]
    [] Goal = "ip" -> [y : Blinds, w : Zx, xs : Vec(Zx, Log2(N))]
    [] Goal = "ipsound" -> [c : Zx, dl : Z]
RunsOf(p) ==
  CASE Goal = "complete" -> {[v |-> v, k |-> k, ch |-> p] : v \in Range, k \in Draws}
    [] Goal = "tamper" -> {[pf |-> HonestWith(Prove(v, k), p), ch |-> p] : v \in Range, k \in Draws}
    [] Goal = "hidden" -> {[ch |-> p]}
    [] Goal = "digits" -> {p @@ [aR |-> r] : r \in Vec(Z, N)}
    [] Goal = "sound" -> {p @@ [S |-> s] : s \in [g : {0}, h : {0}, a : Slopes, b : Slopes]}
    [] Goal = "ip" -> {p @@ [a |-> a, b |-> b] : a \in Vec(Z, N), b \in Vec(Slopes, N)}
    [] Goal = "ipsound" -> {p @@ [a |-> a, b |-> b, dr |-> d] : a \in Vec(Slopes, 2), b \in Vec(Slopes, 2), d \in Z}

Init == ph = 0 /\ run = <<>>
Next == \/ ph = 0 /\ ph' = 1 /\ run' \in Parts
        \/ ph = 1 /\ ph' = 2 /\ run' \in RunsOf(run)
Holds ==
  ph < 2 \/ CASE Goal = "complete" -> Completeness
              [] Goal = "digits" -> Digits
              [] Goal = "sound" -> Soundness
              [] Goal = "hidden" -> Hiding
              [] Goal = "tamper" -> Tamper
              [] Goal = "ip" -> IPComplete
              [] Goal = "ipsound" -> IPSound
=============================================================================
