----------------------------- MODULE CcsSession -----------------------------
(***************************************************************************)
(* Sessions with the packages ccs08 and bbsignatures: named slots hold     *)
(* parameters (P), proofs (F), range proof objects (R), key pairs (K) and  *)
(* signatures (S).  Every operation gives the answer the protocols of      *)
(* module Ccs prescribe, changes no slot but its result, and draws the     *)
(* numbers in "vals" from the random source.                               *)
(***************************************************************************)
EXTENDS CcsForge, Faults, Meet

EmptyEnv == [s \in {} |-> 0]
Put(env, s, r) == [x \in (DOMAIN env) \cup {s} |-> IF x = s THEN r ELSE env[x]]
Slot(k, v) == [k |-> k, v |-> v]

(*------------------------------ statements -------------------------------*)
Top(P) == NPow(P.u, P.l)
Member(P, x) == \E i \in DOMAIN P.ms : NEq(P.ms[i], x)
Within(x, top) == NLe(NLit(0), x) /\ NLt(x, top)
\* "yes": must be accepted, "no": must not be; "any": the number is outside, but one with the same commitment is inside
Expect(P, x) ==
  IF P.kind = "set" THEN IF Member(P, x) THEN "yes" ELSE "no"
  ELSE IF Within(x, Top(P)) THEN "yes" ELSE IF NLt(Fb(x), Top(P)) THEN "any" ELSE "no"
ExpectR(A, B, x) ==
  IF NLe(A, x) /\ NLt(x, B) THEN "yes" ELSE IF NLt(Fb(NSub(x, A)), NSub(B, A)) THEN "any" ELSE "no"
Agrees(w, accepted) == w = "any" \/ accepted = (w = "yes")

\* numbers outside of 0..order-1 in a proof: the library may take them for their residues or refuse them
Fixed(x) == IF x = "nil" THEN x ELSE Fb(x)
Reduced(pf) == [pf EXCEPT !.c = Fixed(@), !.zr = Fixed(@), !.zsig = [i \in DOMAIN @ |-> Fixed(@[i])], !.zv = [i \in DOMAIN @ |-> Fixed(@[i])]]
VerdictOK(P, pf, ok) == IF Canonical(pf) THEN ok = Accepts(P, pf) ELSE ok => Accepts(P, Reduced(pf))

(*-------------------------- random numbers -------------------------------*)
\* the numbers a read of the random source may stand for
Masked(v) == NMod(v, NPow(NLit(2), 254))
Drawn(vals) == {Fb(vals[i]) : i \in DOMAIN vals} \cup {x \in {Masked(vals[i]) : i \in DOMAIN vals} : NLt(x, ROrd)}
Big(x) == NLt(NPow(NLit(2), 200), x)

\* parameters made by a trusted setup: a fresh key that is not in them, correct signatures, a fresh second base
Alone(e) == "together" \notin DOMAIN e      \* the numbers drawn are known
SetupMade(e, P, nums, vals) ==
  IF ~ Alone(e) THEN \A i \in DOMAIN P.ms : SigOK(P.y, P.ms[i], P.sg[i]) /\ P.H # B2Base ELSE
  LET cand == {k \in Drawn(vals) : Big(k)} IN
  /\ \A i \in DOMAIN nums : PubKey(nums[i]) # P.y                     \* C18
  /\ \E x \in cand :
       /\ PubKey(x) = P.y
       /\ \A i \in DOMAIN P.ms : Signable(x, P.ms[i]) /\ P.sg[i] = Sig(x, P.ms[i])
       /\ \E h \in cand \ {x} : P.H = B2Multi(<<h>>, <<B2Base>>)         \* C28
\* nothing of it was there before
SetupFresh(env, P) ==
  \A s \in DOMAIN env : (env[s].k = "P" => env[s].v.H # P.H /\ env[s].v.y # P.y)
                        /\ (env[s].k = "R" => ~ env[s].v.has \/ (env[s].v.P.H # P.H /\ env[s].v.P.y # P.y))
SameNames(P, S) == {P.ms[i] : i \in DOMAIN P.ms} = S /\ Cardinality(DOMAIN P.ms) = Cardinality(S)

(*------------------- what a proof reveals (C18) --------------------------*)
Blinded(pf) == {pf.V[i] : i \in DOMAIN pf.V} \cup {pf.a[i] : i \in DOMAIN pf.a} \cup {pf.zsig[i] : i \in DOMAIN pf.zsig}
               \cup {pf.zv[i] : i \in DOMAIN pf.zv} \cup {pf.D, pf.zr}
Numbers(pf) == <<pf.c, pf.zr>> \o pf.zsig \o pf.zv
\* the masks of the responses of a proof about x
Roles(P, pf, x, r) ==
  LET d == DigitsOf(x, P.u, P.l) IN {BAdd(pf.zr, BMul(r, pf.c))} \cup {BAdd(pf.zsig[i], BMul(d[i], pf.c)) : i \in 1..P.l}
\* every blinding number is a draw of its own: m, and s_i, t_i, v_i for each digit
Fresh(P, pf, x, r, vals, used) ==
  LET cand == {k \in Drawn(vals) : Big(k)}
      n == P.l
      d == IF P.kind = "set" THEN <<x>> ELSE DigitsOf(x, P.u, P.l)
      m == BAdd(pf.zr, BMul(r, pf.c))
      s == TLCEval([i \in 1..n |-> BAdd(pf.zsig[i], BMul(d[i], pf.c))])
      vc == TLCEval([i \in 1..n |-> {v \in cand : B2Multi(<<v>>, <<SigIn(P, d[i])>>) = pf.V[i]}])
      v == TLCEval([i \in 1..n |-> IF vc[i] = {} THEN "none" ELSE CHOOSE k \in vc[i] : TRUE])
      t == TLCEval([i \in 1..n |-> IF vc[i] = {} THEN "none" ELSE BAdd(pf.zv[i], BMul(v[i], pf.c))])
      all == {m} \cup {s[i] : i \in 1..n} \cup {t[i] : i \in 1..n} \cup {v[i] : i \in 1..n}
      shown == {pf.c} \cup {pf.zv[i] : i \in 1..n} \cup (IF NEq(Fb(r), NLit(0)) THEN {} ELSE {pf.zr})
               \cup {pf.zsig[i] : i \in {i \in 1..n : ~ NEq(Fb(d[i]), NLit(0))}}
      secrets == cand \cup {Fb(r)} \cup (IF Big(Fb(x)) THEN {Fb(x)} ELSE {})
  IN  /\ \A k \in all : k \in cand
      /\ Cardinality(all) = 3 * n + 1
      /\ all \cap used = {}
      /\ shown \cap secrets = {}
FreshProof(P, pf, x, r, vals) == Fresh(P, pf, x, r, vals, {})
\* nums are all numbers that are somewhere in the proof: beside its parts, nothing secret
NothingElse(nums, pfs, r, vals) ==
  LET secrets == {k \in Drawn(vals) : Big(k)} \cup (IF Big(Fb(r)) THEN {Fb(r)} ELSE {})
      parts == UNION {{Numbers(pf)[i] : i \in DOMAIN Numbers(pf)} : pf \in pfs}
  IN  \A i \in DOMAIN nums : nums[i] \in parts \/ Fb(nums[i]) \notin secrets
FreshR(R, r, vals) ==
  LET x == R.x IN
  \* disjointness of the blinding numbers of the halves: m is the one that both might share unnoticed
  /\ FreshProof(R.P, R.p1, NAdd(NSub(x, R.B), Top(R.P)), r, vals)
  /\ Fresh(R.P, R.p2, NSub(x, R.A), r, vals, Roles(R.P, R.p1, NAdd(NSub(x, R.B), Top(R.P)), r))
  /\ Blinded(R.p1) \cap Blinded(R.p2) = {}
NothingShared(env, pf) ==
  \A s \in DOMAIN env :
    /\ (env[s].k = "F" => Blinded(env[s].v) \cap Blinded(pf) \subseteq {"nil"})
    /\ (env[s].k = "R" => (Blinded(env[s].v.p1) \cup Blinded(env[s].v.p2)) \cap Blinded(pf) \subseteq {"nil"})

(*------------------------------- proofs ----------------------------------*)
NoProof == [V |-> <<>>, a |-> <<>>, D |-> "nil", C |-> "nil", c |-> "nil", zr |-> "nil", zsig |-> <<>>, zv |-> <<>>]
PfFields == DOMAIN NoProof
ProofOK(P, x, r, pf) ==
  /\ Canonical(pf) /\ Agrees(Expect(P, x), Accepts(P, pf))
  /\ (Expect(P, x) = "yes" => pf.C = Commit(P, x, r))
RProofOK(R, x, r) ==
  LET w == ExpectR(R.A, R.B, x) IN
  /\ w = "yes" => /\ Canonical(R.p1) /\ Canonical(R.p2)
                  /\ R.p2.C = Commit(R.P, NSub(x, R.A), r)
  /\ Agrees(w, RAccepts(R.P, R.A, R.B, R.p1, R.p2))

(*------------------------------- tampering -------------------------------*)
ListFields == {"V", "a", "zsig", "zv"}
G2How(p, how, k) ==
  CASE how = "neg" -> B2Multi(<<NLit(-1)>>, <<p>>)
    [] how = "add" -> B2Multi(<<NLit(1), k>>, <<p, B2Base>>)
    [] how = "mul" -> B2Multi(<<k>>, <<p>>)
    [] how = "set" -> B2Multi(<<k>>, <<B2Base>>)
    [] how = "inf" -> B2Zero
    [] how = "nil" -> "nil"
GTHow(p, how, k) ==
  CASE how = "neg" -> BTMulti(<<NLit(-1)>>, <<p>>)
    [] how = "add" -> BTMulti(<<NLit(1), k>>, <<p, BTBase>>)
    [] how = "mul" -> BTMulti(<<k>>, <<p>>)
    [] how = "set" -> BTMulti(<<k>>, <<BTBase>>)
    [] how = "inf" -> BTZero
    [] how = "nil" -> "nil"
NumHow(x, how, k) ==
  CASE how = "neg" -> BNeg(x)
    [] how = "add" -> BAdd(x, k)
    [] how = "mul" -> BMul(x, k)
    [] how = "raw" -> NAdd(x, k)
    [] how = "set" -> k
    [] how = "nil" -> "nil"
How(f, old, how, k) ==
  CASE f \in {"V", "D", "C", "H"} -> G2How(old, how, k)
    [] f = "a" -> GTHow(old, how, k)
    [] OTHER -> NumHow(old, how, k)
At(r, f, i) == IF f \in ListFields THEN r[f][i] ELSE r[f]
With(r, f, i, x) == IF f \in ListFields THEN [r EXCEPT ![f][i] = x] ELSE [r EXCEPT ![f] = x]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
DupAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Tampered(env, e) ==
  LET r == env[e.a].v
      k == IF "k" \in DOMAIN e THEN e.k ELSE NLit(0)
      i == IF "i" \in DOMAIN e THEN e.i ELSE 1
  IN  CASE e.how = "drop" -> [r EXCEPT ![e.f] = DropAt(@, i)]
        [] e.how = "dup" -> [r EXCEPT ![e.f] = DupAt(@, i)]
        [] e.how = "clear" -> [r EXCEPT ![e.f] = <<>>]
        [] e.how = "from" -> With(r, e.f, i, At(env[e.b].v, e.g, e.j))
        [] OTHER -> With(r, e.f, i, How(e.f, At(r, e.f, i), e.how, k))

(*---------------------------- the operations -----------------------------*)
Unchanged == <<>>
Ok(e) == DOMAIN e.res \cap {"panic", "hang", "crash"} = {} /\ (e.op = "Mode" \/ e.res.chg = Unchanged)
NoParams == [kind |-> "ul", y |-> "nil", H |-> "nil", ms |-> <<>>, sg |-> <<>>, u |-> NLit(1), l |-> 1]
RObj(env, d) == IF d \in DOMAIN env THEN env[d].v ELSE [has |-> FALSE, P |-> NoParams, A |-> NLit(0), B |-> NLit(0), p1 |-> NoProof, p2 |-> NoProof, x |-> "nil"]
Pm(r) == [kind |-> r.kind, y |-> r.y, H |-> r.H, ms |-> r.ms, sg |-> r.sg, u |-> r.u, l |-> r.l]
SameParams(P, Q) ==
  /\ P.kind = Q.kind /\ P.y = Q.y /\ P.H = Q.H /\ (P.kind = "ul" => NEq(P.u, Q.u) /\ P.l = Q.l)
  /\ {<<P.ms[i], P.sg[i]>> : i \in DOMAIN P.ms} = {<<Q.ms[i], Q.sg[i]>> : i \in DOMAIN Q.ms}
Strict(e) == "strict" \in DOMAIN e

\* an operation on something an earlier one refused to make is left out
Missing(env, e) ==
  \/ "vs" \in DOMAIN e /\ \E i \in DOMAIN e.vs : e.vs[i] \notin DOMAIN env
  \/ \E f \in {"a", "b", "p", "key"} \cap DOMAIN e : e[f] \notin DOMAIN env
RECURSIVE Good(_, _)
Good(env, e) ==
  LET r == e.res IN
  IF Missing(env, e) THEN "skip" \in DOMAIN r
  ELSE CASE e.op = "Mode" -> r = [mode |-> TRUE]
    [] e.op = "Fail" -> r.chg = Unchanged /\ FailStop(e)
    [] e.op = "Together" ->       \* each as if it were alone, and what they make has nothing in common
         LET made(i) == r.rs[i] IN
         /\ r.chg = Unchanged /\ DOMAIN r.rs = DOMAIN e.ops
         /\ \A i \in DOMAIN e.ops : Good(env, Sub(e, i))
         /\ \A i, j \in DOMAIN e.ops : i < j =>
              /\ ("P" \in DOMAIN made(i) /\ "P" \in DOMAIN made(j) => made(i).P.y # made(j).P.y /\ made(i).P.H # made(j).P.H)
              /\ ("y" \in DOMAIN made(i) /\ "y" \in DOMAIN made(j) => made(i).y # made(j).y)
              /\ ("pf" \in DOMAIN made(i) /\ "pf" \in DOMAIN made(j) => Blinded(made(i).pf) \cap Blinded(made(j).pf) = {})
    [] e.op = "SetupSet" ->
         LET P == Pm(r.P) IN
         /\ ~ r.err /\ P.kind = "set" /\ SameNames(P, {e.s[i] : i \in DOMAIN e.s})
         /\ SetupMade(e, P, r.nums, r.vals) /\ SetupFresh(env, P)
    [] e.op = "SetupUL" ->
         LET P == Pm(r.P) IN
         /\ ~ r.err /\ P.kind = "ul" /\ NEq(P.u, e.u) /\ P.l = e.l
         /\ SameNames(P, {NLit(i) : i \in 0..(NInt(e.u) - 1)})
         /\ SetupMade(e, P, r.nums, r.vals) /\ SetupFresh(env, P)
    [] e.op = "PutParams" -> SameParams(Pm(r.P), e.P)
    [] e.op \in {"ProveSet", "ProveUL"} ->
         LET P == env[e.p].v IN
         IF r.err THEN Expect(P, e.x) # "yes"
         ELSE /\ (P.kind = "set" => Member(P, e.x))
              /\ ProofOK(P, e.x, e.r, r.pf)
              /\ NothingShared(env, r.pf)
              /\ (Strict(e) => FreshProof(P, r.pf, e.x, e.r, r.vals) /\ NothingElse(r.nums, {r.pf}, e.r, r.vals))
    [] e.op = "Put" -> r.pf = e.pf
    [] e.op = "Verify" -> VerdictOK(env[e.p].v, env[e.a].v, r.ok)
    [] e.op = "Tamper" -> r.pf = Tampered(env, e)
    [] e.op = "TamperP" -> SameParams(Pm(r.P), [env[e.a].v EXCEPT !.H = How("H", @, e.how, e.k)])
    [] e.op = "RSetup" ->
         IF NLt(e.B, e.A) THEN r.err /\ ~ r.set
         ELSE IF r.err THEN NEq(e.B, NLit(1)) /\ ~ r.set
         ELSE LET P == Pm(r.P) IN
              /\ P.kind = "ul" /\ P.l <= 64 /\ NLe(NSub(e.B, e.A), Top(P)) /\ NLe(NMul(NLit(2), Top(P)), ROrd)
              /\ SameNames(P, {NLit(i) : i \in 0..(NInt(P.u) - 1)})
              /\ SetupMade(e, P, r.nums, r.vals) /\ SetupFresh(env, P)
    [] e.op = "RProve" ->
         LET R == RObj(env, e.d) IN
         IF ~ R.has THEN r.err
         ELSE LET R2 == [R EXCEPT !.p1 = r.p1, !.p2 = r.p2, !.x = e.x] IN
              IF r.err THEN ExpectR(R.A, R.B, e.x) # "yes"
              ELSE /\ RProofOK(R2, e.x, e.r)
                   /\ NothingShared(env, r.p1) /\ NothingShared(env, r.p2)
                   /\ (Strict(e) => FreshR(R2, e.r, r.vals) /\ NothingElse(r.nums, {r.p1, r.p2}, e.r, r.vals))
    [] e.op = "RVerify" ->
         LET R == RObj(env, e.d) IN
         IF ~ R.has THEN ~ r.ok
         ELSE IF Canonical(R.p1) /\ Canonical(R.p2) THEN r.ok = RAccepts(R.P, R.A, R.B, R.p1, R.p2)
         ELSE r.ok => RAccepts(R.P, R.A, R.B, Reduced(R.p1), Reduced(R.p2))
    [] e.op = "RMake" -> r.p1 = env[e.a].v /\ r.p2 = env[e.b].v
    [] e.op = "Half" -> r.pf = IF e.i = 1 THEN env[e.a].v.p1 ELSE env[e.a].v.p2
    [] e.op = "ParOf" -> SameParams(Pm(r.P), env[e.a].v.P)
    [] e.op = "Keygen" ->
         IF e.src = "fail" THEN r.err
         ELSE /\ ~ r.err /\ r.y = PubKey(r.x) /\ (Alone(e) => r.x \in Drawn(r.vals))
              /\ (e.src # "zero" => \A s \in DOMAIN env : env[s].k = "K" => env[s].v.y # r.y)
    [] e.op = "Sign" ->
         LET x == IF "x" \in DOMAIN e THEN e.x ELSE env[e.key].v.x IN
         IF Signable(x, e.m) THEN ~ r.err /\ r.s = Sig(x, e.m) ELSE r.err
    [] e.op = "PutSig" -> r.s = e.s
    [] e.op = "TamperS" -> r.s = G2How(env[e.a].v, e.how, e.k)
    [] e.op = "PutKey" -> r.y = PubKey(e.x)
    [] e.op = "BVerify" -> r.ok = SigOK(env[e.key].v.y, e.m, env[e.a].v)
    [] e.op = "Par" ->
         LET P == env[e.p].v IN
         /\ Len(r.pfs) = Len(e.xs) /\ Len(r.voks) = Len(e.vs)
         /\ \A i \in DOMAIN e.xs :
              IF r.errs[i] THEN Expect(P, e.xs[i]) # "yes"
              ELSE ProofOK(P, e.xs[i], e.rs[i], r.pfs[i]) /\ (P.kind = "set" => Member(P, e.xs[i])) /\ VerdictOK(P, r.pfs[i], r.oks[i])
         /\ \A i \in DOMAIN e.vs : VerdictOK(P, env[e.vs[i]].v, r.voks[i])
         /\ \A i, j \in DOMAIN e.xs : i < j /\ ~ r.errs[i] /\ ~ r.errs[j] => Blinded(r.pfs[i]) \cap Blinded(r.pfs[j]) = {}
    [] e.op = "RPar" ->       \* several objects with the same parameters and their own secrets
         LET R == env[e.d].v IN
         /\ Len(r.objs) = Len(e.xs)
         /\ \A i \in DOMAIN e.xs :
              LET R2 == [R EXCEPT !.p1 = r.objs[i].p1, !.p2 = r.objs[i].p2] IN
              IF r.objs[i].err THEN ExpectR(R.A, R.B, e.xs[i]) # "yes"
              ELSE RProofOK(R2, e.xs[i], e.rs[i]) /\ r.objs[i].ok = RAccepts(R.P, R.A, R.B, R2.p1, R2.p2)

After(env, e) ==
  LET r == e.res IN
  IF Missing(env, e) THEN env
  ELSE CASE e.op \in {"SetupSet", "SetupUL", "PutParams", "TamperP", "ParOf"} -> Put(env, e.d, Slot("P", Pm(r.P)))
    [] e.op \in {"ProveSet", "ProveUL"} -> IF r.err THEN env ELSE Put(env, e.d, Slot("F", r.pf))
    [] e.op \in {"Put", "Tamper", "Half"} -> Put(env, e.d, Slot("F", r.pf))
    [] e.op = "RSetup" -> Put(env, e.d, Slot("R", [RObj(env, e.d) EXCEPT !.has = ~ r.err, !.P = IF r.err THEN NoParams ELSE Pm(r.P), !.A = e.A, !.B = e.B]))
    [] e.op = "RProve" /\ RObj(env, e.d).has -> Put(env, e.d, Slot("R", [RObj(env, e.d) EXCEPT !.p1 = r.p1, !.p2 = r.p2, !.x = e.x]))
    [] e.op = "RMake" -> Put(env, e.d, Slot("R", [has |-> TRUE, P |-> env[e.p].v, A |-> e.A, B |-> e.B, p1 |-> r.p1, p2 |-> r.p2, x |-> "nil"]))
    [] e.op = "Keygen" -> IF r.err THEN env ELSE Put(env, e.d, Slot("K", [x |-> r.x, y |-> r.y]))
    [] e.op = "PutKey" -> Put(env, e.d, Slot("K", [x |-> Fb(e.x), y |-> r.y]))
    [] e.op = "Sign" -> IF r.err THEN env ELSE Put(env, e.d, Slot("S", r.s))
    [] e.op \in {"PutSig", "TamperS"} -> Put(env, e.d, Slot("S", r.s))
    [] OTHER -> env

Expected(env, e) ==
  IF Missing(env, e) THEN "nothing" ELSE
  CASE e.op = "Verify" -> "verdict " \o (IF Accepts(env[e.p].v, Reduced(env[e.a].v)) THEN "TRUE" ELSE "FALSE") \o ", nothing changed"
    [] e.op \in {"ProveSet", "ProveUL"} -> "a proof with verdict " \o Expect(env[e.p].v, e.x) \o ", nothing changed"
    [] e.op = "RSetup" -> IF NLt(e.B, e.A) THEN "an error" ELSE "parameters for the interval"
    [] e.op = "RProve" -> "see RProve in CcsSession.tla"
    [] e.op = "RVerify" -> "see RVerify in CcsSession.tla"
    [] e.op = "BVerify" -> IF SigOK(env[e.key].v.y, e.m, env[e.a].v) THEN "TRUE" ELSE "FALSE"
    [] OTHER -> "see Good in CcsSession.tla"
=============================================================================
