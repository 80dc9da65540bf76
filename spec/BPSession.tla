------------------------------ MODULE BPSession ------------------------------
(***************************************************************************)
(* Sessions with the bulletproofs package: named slots hold parameters and *)
(* proofs; every operation gives the answer the protocol of module BP      *)
(* prescribes and changes no slot but its result.  The numbers a prover    *)
(* draws are not observable, so that for provers the specification says    *)
(* which proofs are possible: those with the right verdict.                *)
(***************************************************************************)
EXTENDS BPForge, Faults, Meet

PfFields == {"n", "V", "A", "S", "T1", "T2", "C", "taux", "mu", "t", "ls", "rs", "a", "b", "gens"}
Pf(r) == [k \in PfFields |-> r[k]]
PointFields == {"V", "A", "S", "T1", "T2", "C"}
ScalarFields == {"taux", "mu", "t", "a", "b"}

EmptyEnv == [s \in {} |-> 0]
Put(env, s, r) == [x \in (DOMAIN env) \cup {s} |-> IF x = s THEN r ELSE env[x]]

(*------------------------------ statements -------------------------------*)
MaxEnd == Two(32)
SetupOK(b) == \E n \in Sizes : NEq(b, Two(n))
SizeOf(b) == CHOOSE n \in Sizes : NEq(b, Two(n))
In(x, a, b) == NLe(a, x) /\ NLt(x, b)
\* "yes": must be accepted, "no": must not be, "any": the number is outside, but the one of the commitment is inside
Expect(x, a, b) ==
  IF In(x, a, b) THEN "yes"
  ELSE IF NLt(NMod(NSub(x, a), QOrd), NSub(b, a)) THEN "any" ELSE "no"

IntervalOK(a, b) == NLe(a, b) /\ NLe(NSub(b, a), MaxEnd)
Linked(g) == PIsInf(PMulti(<<NLit(1), NLit(-1), NSub(NSub(g.B, g.A), MaxEnd)>>, <<g.p1.V, g.p2.V, PBase>>))
GAccepts(g) == Accepts(g.p1) /\ Accepts(g.p2) /\ Linked(g)

\* inner product proofs: n, ls, rs, a, b, u, P, gg, hh
IPAccepts(p) ==
  /\ p.n >= 1 /\ Len(p.gg) = p.n /\ Len(p.hh) = p.n
  /\ Len(p.ls) = Len(p.rs) /\ 2 ^ Len(p.ls) = p.n
  /\ POk(p.u) /\ POk(p.P)
  /\ \A s \in {p.gg, p.hh, p.ls, p.rs} : \A i \in DOMAIN s : POk(s[i])
  /\ p.a # "nil" /\ p.b # "nil"
  /\ IPHolds(p.gg, p.hh, Const(NLit(1), p.n), p.u, p.P, p.ls, p.rs, p.a, p.b, RoundChallenges(p.P, p.ls, p.rs))


\* slots: [k |-> kind, v |-> value, acc |-> verdict: "yes", "no", or "?" if not known yet]
Slot(k, v, acc) == [k |-> k, v |-> v, acc |-> acc]
B2(b) == IF b THEN "yes" ELSE "no"
Verdict(s) == IF s.acc # "?" THEN s.acc
              ELSE CASE s.k = "B" -> B2(Accepts(s.v)) [] s.k = "G" -> B2(GAccepts(s.v)) [] s.k = "I" -> B2(IPAccepts(s.v))

(*------------------------------- tampering -------------------------------*)
PointHow(p, how, k) ==
  CASE how = "neg" -> PNeg(p)
    [] how = "add" -> PMulti(<<NLit(1), k>>, <<p, PBase>>)
    [] how = "addh" -> PMulti(<<NLit(1), k>>, <<p, GenH>>)
    [] how = "mul" -> PMul(k, p)
    [] how = "set" -> PMul(k, PBase)
    [] how = "inf" -> PInf
    [] how = "zero" -> "0,0"
    [] how = "nil" -> "nil"
ScalarHow(x, how, k) ==
  CASE how = "neg" -> FNeg(x)
    [] how = "add" -> FAdd(x, k)
    [] how = "mul" -> FMul(x, k)
    [] how = "raw" -> NAdd(x, k)
    [] how = "set" -> k
    [] how = "nil" -> "nil"
At(r, f, i) == IF f \in {"ls", "rs", "gg", "hh"} THEN r[f][i] ELSE r[f]
With(r, f, i, x) == IF f \in {"ls", "rs", "gg", "hh"} THEN [r EXCEPT ![f][i] = x] ELSE [r EXCEPT ![f] = x]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
DupAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
\* the value of a slot after replacing the component e.f (number e.i); k is only there where a number is needed
Tampered(env, e) ==
  LET r == env[e.a].v
      k == IF "k" \in DOMAIN e THEN e.k ELSE NLit(0)
      i == IF "i" \in DOMAIN e THEN e.i ELSE 1
  IN  CASE e.how = "ip" -> [r EXCEPT !.ls = env[e.b].v.ls, !.rs = env[e.b].v.rs, !.a = env[e.b].v.a, !.b = env[e.b].v.b]
        [] e.how = "drop" -> [r EXCEPT ![e.f] = DropAt(@, i)]
        [] e.how = "dup" -> [r EXCEPT ![e.f] = DupAt(@, i)]
        [] e.how = "n" -> [r EXCEPT !.n = IF NLe(NLit(1), k) /\ NLe(k, NLit(64)) THEN NInt(k) ELSE 0]
        [] e.how = "from" -> With(r, e.f, i, At(env[e.b].v, e.g, IF "j" \in DOMAIN e THEN e.j ELSE 1))
        [] e.f \in ScalarFields -> With(r, e.f, i, ScalarHow(At(r, e.f, i), e.how, k))
        [] OTHER -> With(r, e.f, i, PointHow(At(r, e.f, i), e.how, k))
\* replacements the specification does not compute: another value of the component, not a point or not reduced
Odd == {"offcurve", "unreduced"}

(*------------------------- blinding (C08) --------------------------------*)
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
Mentions(l, f) == \E i \in DOMAIN l : l[i] = f
\* the only commitments that may depend on a draw are those of its role: [role |-> commitments it does not touch]
IsGamma(l) == Mentions(l, "V") /\ ~ Mentions(l, "A") /\ ~ Mentions(l, "S")
IsAlpha(l) == Mentions(l, "A") /\ ~ Mentions(l, "V") /\ ~ Mentions(l, "S")
IsS(l) == Mentions(l, "S") /\ ~ Mentions(l, "V") /\ ~ Mentions(l, "A")
NoVAS(l) == ~ Mentions(l, "V") /\ ~ Mentions(l, "A") /\ ~ Mentions(l, "S")
IsTau(l, f, g) == NoVAS(l) /\ Mentions(l, f) /\ ~ Mentions(l, g)
RolesOK(infl, sizes, n) ==
  LET full == {i \in DOMAIN sizes : sizes[i] >= 32}
      num(P(_)) == Cardinality({i \in full : P(infl[i])})
      tau1(l) == IsTau(l, "T1", "T2")
      tau2(l) == IsTau(l, "T2", "T1")
      none(l) == l = <<>>                       \* redrawn
      known(l) == IsGamma(l) \/ IsAlpha(l) \/ IsS(l) \/ tau1(l) \/ tau2(l) \/ none(l)
  IN  /\ num(IsGamma) = 1 /\ num(IsAlpha) = 1 /\ num(IsS) = 2 * n + 1 /\ num(tau1) = 1 /\ num(tau2) = 1
      /\ \A i \in DOMAIN infl : known(infl[i])
\* for two bits or less: the draws in their roles, in whatever order they were made, give exactly this proof
Candidates(vals) == {NMod(vals[i], QOrd) : i \in DOMAIN vals}
SVecs(cand, n) == [1..n -> cand]
ExplainedBy(pf, x, cand) ==
  LET n == pf.n IN
  \E gamma \in cand : /\ PEq(pf.V, Com(x, gamma))
  /\ \E alpha \in cand \ {gamma} : /\ PEq(pf.A, MsgA([n |-> n, aL |-> Bits(x, n), aR |-> [i \in 1..n |-> FSub(Bits(x, n)[i], NLit(1))], alpha |-> alpha]))
  /\ \E rho \in cand \ {gamma, alpha} :
     \E sL \in SVecs(cand \ {gamma, alpha, rho}, n) :
     \E sR \in SVecs(cand \ {gamma, alpha, rho}, n) :
        /\ Cardinality({sL[i] : i \in 1..n} \cup {sR[i] : i \in 1..n}) = 2 * n
        /\ PEq(pf.S, MsgS([n |-> n, sL |-> sL, sR |-> sR, rho |-> rho]))
        /\ \E tau1 \in cand \ {gamma, alpha, rho} : \E tau2 \in cand \ {gamma, alpha, rho, tau1} :
           LET bits == Bits(x, n)
               c == [n |-> n, v |-> x, aL |-> bits, aR |-> [i \in 1..n |-> FSub(bits[i], NLit(1))], alpha |-> alpha, rho |-> rho,
                     tau1 |-> tau1, tau2 |-> tau2, gamma |-> gamma, sL |-> sL, sR |-> sR]
               ch == Challenges(pf)
           IN  /\ tau1 \notin {sL[i] : i \in 1..n} \cup {sR[i] : i \in 1..n} /\ tau2 \notin {sL[i] : i \in 1..n} \cup {sR[i] : i \in 1..n}
               /\ PEq(pf.T1, Com(T1c(c, ch.y, ch.z), tau1)) /\ PEq(pf.T2, Com(T2c(c, ch.y), tau2))
               /\ NEq(pf.taux, Taux(c, ch.z, ch.x)) /\ NEq(pf.mu, Mu(c, ch.x))
               /\ NEq(pf.t, Dot(LVec(c, ch.z, ch.x), RVec(c, ch.y, ch.z, ch.x)))
\* what two proofs may not have in common
Published(pf) == {pf[f] : f \in PointFields} \cup {pf[f] : f \in ScalarFields} \cup {pf.ls[i] : i \in DOMAIN pf.ls} \cup {pf.rs[i] : i \in DOMAIN pf.rs}
\* nothing is published twice within a proof (with one bit there are no vectors left to hide)
Disjoint(p, q) == Published(p) \cap Published(q) = {}

(*---------------------------- the operations -----------------------------*)
Unchanged == <<>>                       \* slots other than the result that changed
ErrR == [err |-> TRUE, chg |-> Unchanged]
HasPf(e) == "pf" \in DOMAIN e.res
ProofOK(n, gens, x, pf) ==
  /\ pf.n = n
  /\ IF gens # StdGens(n) THEN ~ Accepts(pf)
     ELSE LET w == Expect(x, NLit(0), Two(n)) IN w = "any" \/ B2(Accepts(pf)) = w
GProofOK(P, x, g) ==
  /\ g.A = P.A /\ g.B = P.B /\ g.p1.n = 32 /\ g.p2.n = 32
  /\ LET w == Expect(x, P.A, P.B) IN w = "any" \/ B2(GAccepts(g)) = w

IPWant(e) ==       \* view of an inner product proof, as far as it is determined
  LET n == Len(e.a)
      own(ps, f) == IF f \in DOMAIN e THEN [i \in 1..n |-> PMul(e[f][i], ps[i])] ELSE ps       \* the caller's generators
      gg == TLCEval(own(GenGg(n), "gk")) hh == TLCEval(own(GenHh(n), "hk"))
      va == IF e.how = "commit" THEN e.a ELSE e.a2
      vb == IF e.how = "commit" THEN e.b ELSE e.b2
      C == PMulti(va \o vb, gg \o hh)
      w == HashIP(gg, hh, C, e.c)
      u == PMul(w, GenU)
  IN  [n |-> n, u |-> u, P |-> PMulti(<<NLit(1), e.c>>, <<C, u>>), gg |-> gg, hh |-> hh, C |-> C]
IPTrue(e) == e.how = "commit" /\ NEq(F(e.c), Dot(e.a, e.b))
NoInf(pf) == \A s \in {pf.ls, pf.rs, <<pf.P, pf.u>>} : \A i \in DOMAIN s : ~ PIsInf(s[i])

\* the possible answers; "why" names the clause for the report
\* an operation on something an earlier one refused to make is left out ("a" and "b" are vectors in IP)
Missing(env, e) ==
  \/ \E f \in (IF e.op = "IP" THEN {} ELSE {"a", "b", "p"}) \cap DOMAIN e : ~ (f = "b" /\ e.op \in {"Setup"}) /\ e[f] \notin DOMAIN env
  \/ "vs" \in DOMAIN e /\ \E i \in DOMAIN e.vs : e.vs[i] \notin DOMAIN env
RECURSIVE Good(_, _)
Good(env, e) ==
  LET r == e.res IN
  IF Missing(env, e) THEN "skip" \in DOMAIN r
  ELSE CASE e.op = "Mode" -> r = [mode |-> TRUE]
    [] e.op = "Fail" -> r.chg = Unchanged /\ FailStop(e)
    [] e.op = "Together" ->       \* each as if it were alone, and what they make has nothing in common
         /\ r.chg = Unchanged /\ DOMAIN r.rs = DOMAIN e.ops
         /\ \A i \in DOMAIN e.ops : Good(env, Sub(e, i))
         /\ \A i, j \in DOMAIN e.ops : i < j /\ e.ops[i].op = e.ops[j].op /\ "pf" \in DOMAIN r.rs[i] /\ "pf" \in DOMAIN r.rs[j] =>
              CASE e.ops[i].op = "Prove" -> Disjoint(r.rs[i].pf, r.rs[j].pf)
                [] e.ops[i].op = "ProveG" -> Disjoint(r.rs[i].pf.p1, r.rs[j].pf.p1) /\ Disjoint(r.rs[i].pf.p2, r.rs[j].pf.p2)
                [] OTHER -> TRUE
    [] e.op = "Setup" ->
         r = (IF SetupOK(e.b) THEN [err |-> FALSE, n |-> SizeOf(e.b), gens |-> StdGens(SizeOf(e.b)), chg |-> Unchanged] ELSE ErrR)
    [] e.op = "Prove" ->
         LET P == env[e.p].v IN
         IF HasPf(e) THEN r = [err |-> FALSE, pf |-> r.pf, chg |-> Unchanged] /\ ProofOK(P.n, P.gens, e.x, r.pf)
         ELSE r = ErrR /\ (P.gens # StdGens(P.n) \/ ~ In(e.x, NLit(0), Two(P.n)))
    [] e.op = "Verify" -> r = [ok |-> (Verdict(env[e.a]) = "yes"), chg |-> Unchanged]
    [] e.op = "Json" -> r = [err |-> FALSE, equal |-> TRUE, again |-> TRUE, chg |-> Unchanged]
    [] e.op \in {"Tamper", "TamperIP"} /\ env[e.a].k = "P" -> r.chg = Unchanged /\ ~ (r.n \in Sizes /\ r.gens = StdGens(r.n))
    [] e.op \in {"Tamper", "TamperIP"} ->
         HasPf(e) /\ r.chg = Unchanged /\
         (IF e.how \in Odd \/ (env[e.a].k = "B" /\ e.f \in {"G", "H", "gg", "hh"})
          THEN r.pf # env[e.a].v \/ (e.f = "G" /\ e.how = "set" /\ NEq(e.k, NLit(1)))      \* G itself
          ELSE r.pf = Tampered(env, e))
    [] e.op = "Put" -> r = [err |-> FALSE, pf |-> Pf(e.pf), chg |-> Unchanged]
    [] e.op = "SetupG" ->
         IF NEq(e.A, e.B) THEN r \in {ErrR, [err |-> FALSE, chg |-> Unchanged]}
         ELSE r = (IF IntervalOK(e.A, e.B) THEN [err |-> FALSE, chg |-> Unchanged] ELSE ErrR)
    [] e.op = "ProveG" ->
         LET P == env[e.p].v IN
         IF HasPf(e) THEN r = [err |-> FALSE, pf |-> r.pf, chg |-> Unchanged] /\ GProofOK(P, e.x, r.pf)
         ELSE r = ErrR /\ ~ In(e.x, P.A, P.B)
    [] e.op = "Half" -> r = [pf |-> IF e.i = 1 THEN env[e.a].v.p1 ELSE env[e.a].v.p2, chg |-> Unchanged]
    [] e.op = "Combine" -> r = [pf |-> [A |-> e.A, B |-> e.B, p1 |-> env[e.a].v, p2 |-> env[e.b].v], chg |-> Unchanged]
    [] e.op = "IP" ->
         IF Len(e.a) # Len(e.b) THEN r = ErrR
         ELSE LET w == IPWant(e) IN
              /\ HasPf(e)
              /\ r = [err |-> FALSE, pf |-> r.pf, commit |-> w.C, chg |-> Unchanged]
              /\ r.pf.n = w.n /\ PEq(r.pf.u, w.u) /\ PEq(r.pf.P, w.P) /\ r.pf.gg = w.gg /\ r.pf.hh = w.hh
              /\ Len(r.pf.ls) = Log2(w.n) /\ Len(r.pf.rs) = Log2(w.n)
              /\ (NoInf(r.pf) => (IPAccepts(r.pf) <=> IPTrue(e)))
    [] e.op = "Mutate" ->
         /\ r.crashes = <<>> /\ r.chg = Unchanged /\ ("at" \in DOMAIN e \/ r.places > 10)
         /\ \A i \in DOMAIN r.accepted : IF env[e.a].k = "B" THEN Accepts(r.accepted[i]) ELSE GAccepts(r.accepted[i])
    [] e.op = "Holes" ->       \* the complete proof is the only one that can be accepted (module ShapeMC)
         /\ r.crashes = <<>> /\ r.chg = Unchanged
         /\ \A i \in DOMAIN r.accepted : r.accepted[i] = env[e.a].v
         /\ (r.accepted # <<>> <=> Verdict(env[e.a]) = "yes")
    [] e.op = "Par" ->
         LET P == env[e.p] N == Len(e.xs) IN
         /\ DOMAIN r = {"pfs", "oks", "voks", "chg"} /\ r.chg = Unchanged
         /\ \A i \in 1..N :
              IF P.k = "P" THEN ProofOK(P.v.n, P.v.gens, e.xs[i], r.pfs[i]) /\ r.oks[i] = (Expect(e.xs[i], NLit(0), Two(P.v.n)) = "yes")
              ELSE GProofOK(P.v, e.xs[i], r.pfs[i]) /\ r.oks[i] = (Expect(e.xs[i], P.v.A, P.v.B) = "yes")
         /\ \A i \in DOMAIN e.vs : r.voks[i] = (Verdict(env[e.vs[i]]) = "yes")
         /\ \A i, j \in 1..N : i < j =>
              IF P.k = "P" THEN Disjoint(r.pfs[i], r.pfs[j])
              ELSE Disjoint(r.pfs[i].p1, r.pfs[j].p1) /\ Disjoint(r.pfs[i].p2, r.pfs[j].p2)
    [] e.op = "Tape" ->
         LET P == env[e.p].v full == {i \in DOMAIN r.sizes : r.sizes[i] >= 32} IN
         /\ HasPf(e) /\ r.chg = Unchanged
         /\ {r.nums[i] : i \in DOMAIN r.nums} \cap {x \in Candidates(r.vals) : NLt(Two(100), x)} = {}      \* no draw is published
         /\ IF env[e.p].k = "P"
            THEN /\ ProofOK(P.n, P.gens, e.x, r.pf)
                 /\ Cardinality(full) >= 2 * P.n + 5
                 /\ (e.flips = 1 => RolesOK(r.infl, r.sizes, P.n))
                 /\ (P.n <= 2 => ExplainedBy(r.pf, e.x, Candidates(r.vals)))
            ELSE GProofOK(P, e.x, r.pf) /\ Cardinality(full) >= 4 * 32 + 9
         /\ \A s \in DOMAIN env : env[s].k \in {"B"} /\ HasPf(e) /\ env[e.p].k = "P" => Disjoint(r.pf, env[s].v)
         /\ \A s \in DOMAIN env : env[s].k = "G" /\ env[e.p].k = "G" => Disjoint(r.pf.p1, env[s].v.p1) /\ Disjoint(r.pf.p2, env[s].v.p2)

After(env, e) ==
  LET r == e.res IN
  IF Missing(env, e) THEN env
  ELSE CASE e.op = "Setup" -> IF r.err THEN env ELSE Put(env, e.d, Slot("P", [n |-> r.n, gens |-> r.gens], "?"))
    [] e.op \in {"Prove", "Tape"} /\ HasPf(e) /\ env[e.p].k = "P" ->
         LET P == env[e.p].v w == Expect(e.x, NLit(0), Two(P.n)) IN
         Put(env, e.d, Slot("B", r.pf, IF P.gens # StdGens(P.n) THEN "no" ELSE IF w = "any" THEN "?" ELSE w))
    [] e.op \in {"ProveG", "Tape"} /\ HasPf(e) ->
         LET P == env[e.p].v w == Expect(e.x, P.A, P.B) IN Put(env, e.d, Slot("G", r.pf, IF w = "any" THEN "?" ELSE w))
    [] e.op = "Verify" -> Put(env, e.a, [env[e.a] EXCEPT !.acc = B2(r.ok)])
    [] e.op = "Json" -> Put(env, e.d, env[e.a])
    [] e.op \in {"Tamper", "TamperIP"} ->
         Put(env, e.d, IF env[e.a].k = "P" THEN Slot("P", [n |-> r.n, gens |-> r.gens], "?") ELSE Slot(env[e.a].k, r.pf, "?"))
    [] e.op = "Put" -> Put(env, e.d, Slot("B", r.pf, "?"))
    [] e.op = "SetupG" -> IF r.err THEN env ELSE Put(env, e.d, Slot("GP", [A |-> e.A, B |-> e.B], "?"))
    [] e.op = "Half" -> Put(env, e.d, Slot("B", r.pf, "?"))
    [] e.op = "Combine" -> Put(env, e.d, Slot("G", r.pf, "?"))
    [] e.op = "IP" -> IF r.err THEN env ELSE Put(env, e.d, Slot("I", r.pf, IF NoInf(r.pf) \/ ~ IPTrue(e) THEN B2(IPTrue(e)) ELSE "yes"))
    [] OTHER -> env

\* for the report
Expected(env, e) ==
  IF Missing(env, e) THEN "nothing" ELSE
  CASE e.op = "Verify" -> "ok = " \o (IF Verdict(env[e.a]) = "yes" THEN "TRUE" ELSE "FALSE") \o ", nothing changed"
    [] e.op = "Prove" -> "a proof with verdict " \o Expect(e.x, NLit(0), Two(env[e.p].v.n)) \o ", nothing changed"
    [] e.op = "ProveG" -> "a proof with verdict " \o Expect(e.x, env[e.p].v.A, env[e.p].v.B) \o ", nothing changed"
    [] e.op = "Setup" -> IF SetupOK(e.b) THEN "the published generators" ELSE "an error"
    [] e.op = "SetupG" -> IF IntervalOK(e.A, e.B) THEN "parameters" ELSE "an error"
    [] OTHER -> "see Good in BPSession.tla"
=============================================================================
