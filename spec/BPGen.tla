-------------------------------- MODULE BPGen --------------------------------
(***************************************************************************)
(* Sessions with the bulletproofs package for C01-C12.  A behaviour is     *)
(* complete, and written out, when fin holds.                              *)
(***************************************************************************)
EXTENDS BPSession, TraceKit
CONSTANT Part
VARIABLES chunk, ops, fin

R(tag, bound) == NRand(Seed, tag, bound)
RI(tag, n) == NInt(R(tag, NLit(n)))                                 \* native, 0..n-1
L(s) == [i \in 1..Len(s) |-> NLit(s[i])]
Half(n) == Two(n - 1)
TwoTo(k) == NPow(NLit(2), k)
MaxI == NSub(TwoTo(63), NLit(1))
MinI == NNeg(TwoTo(63))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(*------------------------------ operations -------------------------------*)
Su(d, n) == [op |-> "Setup", d |-> d, b |-> Two(n)]
Pr(d, p, x) == [op |-> "Prove", d |-> d, p |-> p, x |-> x]
Ve(a) == [op |-> "Verify", a |-> a]
Js(d, a) == [op |-> "Json", d |-> d, a |-> a]
\* decoded into a variable that already has a value: a copy of what slot i holds
JsI(d, a, i) == [op |-> "Json", d |-> d, a |-> a, into |-> i]
Pu(d, pf) == [op |-> "Put", d |-> d, pf |-> pf]
SuG(d, a, b) == [op |-> "SetupG", d |-> d, A |-> a, B |-> b]
PrG(d, p, x) == [op |-> "ProveG", d |-> d, p |-> p, x |-> x]
Ha(d, a, i) == [op |-> "Half", d |-> d, a |-> a, i |-> i]
Co(d, a, b, A, B) == [op |-> "Combine", d |-> d, a |-> a, b |-> b, A |-> A, B |-> B]
Ta(d, a, f, i, how, k) == [op |-> "Tamper", d |-> d, a |-> a, f |-> f, i |-> i, how |-> how, k |-> k]
Fr(d, a, f, i, b, g, j) == [op |-> "Tamper", d |-> d, a |-> a, f |-> f, i |-> i, how |-> "from", b |-> b, g |-> g, j |-> j]
Mu1(a, how) == [op |-> "Mutate", a |-> a, how |-> how]

(*-------------------------------- C01 ------------------------------------*)
Reps == IF Thorough THEN 12 ELSE 2
Inside(n) == {NLit(0), NLit(1), NSub(Two(n), NLit(1)), Half(n)} \cup {R(100 + i, Two(n)) : i \in 1..Reps}
Complete(n, x) == {<<Su("p", n), Pr("q", "p", x), Ve("q")>>}
Independent(n, x) == {<<Pu("q", Build(HonestProver(Seed, 7 + n, n, x), "none")), Ve("q")>>}
Many(n) == <<Mode("reuse"), Su("p", n)>> \o Flat([i \in 1..6 |-> <<Pr("q", "p", R(200 + i, Two(n))), Ve("q")>>])

\* secrets that agree in part, handed over in the same object, with proofs in between
Coll(x) == <<x, NAdd(x, TwoTo(64)), NAdd(x, TwoTo(32)), x, NNeg(x), NAdd(x, TwoTo(63)), NAdd(x, QOrd), x, NAdd(x, TwoTo(256)), NAdd(x, TwoTo(128)), x, NSub(x, TwoTo(32)), NSub(x, TwoTo(64)), x>>
CollProve(n, j) ==
  LET xs == Coll(R(150 + j, Two(n))) IN
  <<Mode(IF j % 2 = 1 THEN "reuse" ELSE "keep"), Su("p", n), Su("r", n)>> \o Flat([i \in 1..Len(xs) |-> <<Pr("q", IF i % 5 = 4 THEN "r" ELSE "p", xs[i]), Ve("q")>>])
\* parameters of several sizes, in turn with secrets that are inside one and outside the other
CollSizes(j) ==
  LET sz == <<1, 2, 8, 4, 1, 8>> x(i) == <<NLit(1), NLit(3), NLit(200), NLit(13), NLit(2), NLit(13), NLit(0), NLit(4)>>[1 + ((i + j) % 8)] IN
  <<Mode("reuse")>> \o Flat([i \in 1..6 |-> <<Su("p" \o ToString(i), sz[i])>>])
  \o Flat([i \in 1..24 |-> <<Pr("q", "p" \o ToString(1 + ((i * j) % 6)), x(i)), Ve("q")>>])

(*-------------------------------- C02 ------------------------------------*)
Outside(n) ==
  {NLit(-1), NLit(-2), NNeg(Half(n)), NNeg(Two(n)), Two(n), NAdd(Two(n), NLit(1)), NAdd(Two(n), R(111, Two(n))), NMul(NLit(2), Two(n)),
   NSub(TwoTo(63), NLit(1)), NNeg(TwoTo(63)), TwoTo(64), NAdd(TwoTo(64), NLit(1)), NAdd(TwoTo(64), R(112, Two(n))), NNeg(TwoTo(64)), TwoTo(128),
   NSub(QOrd, NLit(1)), NAdd(QOrd, Two(n)), R(113, QOrd), NNeg(R(114, QOrd)), TwoTo(300), NNeg(TwoTo(300)),
   NAdd(QOrd, R(115, Two(n))), NAdd(NMul(QOrd, Two(n)), R(116, Two(n))), NSub(R(117, Two(n)), NMul(QOrd, Two(n)))}
BadValue(n, i) == CASE i = 1 -> Two(n) [] i = 2 -> NSub(QOrd, NLit(1)) [] i = 3 -> NAdd(Two(n), R(121, Two(n))) [] OTHER -> R(121 + i, QOrd)
Digits(v, n, d) == IF d = 1 THEN Bits(v, n) ELSE WideDigits(v, n)
LiesFor(n) == IF n = 1 THEN Lies \ {"ipL", "ipR", "ipP", "neg"} ELSE Lies
Forged(n, lie, i, d) ==
  LET v == BadValue(n, i) pf == Build(Prover(Seed, 300 + i + 10 * d, n, v, Digits(v, n, d)), lie) IN
  IF ~ Assert(d = 2 \/ Effective(pf, lie), <<"not the intended forgery", n, lie, i, d>>) THEN {}
  ELSE {<<Pu("q", pf), Ve("q")>>}
\* of a prover with a good secret: the verdict is that of the algorithm, whatever it is
Deviating(n, lie) == {<<Pu("q", Build(HonestProver(Seed, 400 + n, n, R(401, Two(n))), lie)), Ve("q")>>}

(*-------------------------------- C03 ------------------------------------*)
Ends == UNION {{TwoTo(k), NAdd(TwoTo(k), NLit(1)), NSub(TwoTo(k), NLit(1)), NNeg(TwoTo(k))} : k \in 0..62}
        \cup {NLit(0), NSub(TwoTo(63), NLit(1)), NNeg(TwoTo(63)), NAdd(NNeg(TwoTo(63)), NLit(1)), NLit(6), NLit(12), NLit(100)}
        \cup {NSub(R(500 + i, TwoTo(64)), TwoTo(63)) : i \in 1..40}
\* sizes that agree in part, one after the other
CollSetup(j) ==
  LET bs == <<Two(2), NAdd(TwoTo(32), NLit(4)), Two(8), NLit(256 + 4), Two(16), NLit(65536 + 256), Two(32), Two(2), TwoTo(62), Two(1), NLit(257), TwoTo(33), NNeg(Two(2)), NLit(0), TwoTo(40), Two(4),
              NLit(3), Two(32), NAdd(TwoTo(62), Two(4)), NNeg(TwoTo(63)), Two(1), NLit(1), Two(16), NLit(5), Two(2)>> IN
  Flat([i \in 1..Len(bs) |-> LET z == bs[1 + ((i * j) % Len(bs))] IN <<[op |-> "Setup", d |-> <<"p", "q", "r">>[1 + ((i + j) % 3)], b |-> z]>>])

(*-------------------------------- C04 ------------------------------------*)
PointHows == <<<<"neg", 0>>, <<"add", 1>>, <<"add", -1>>, <<"mul", 2>>, <<"mul", 3>>, <<"set", 1>>, <<"inf", 0>>, <<"zero", 0>>>>
ScalarHows == <<<<"neg", 0>>, <<"add", 1>>, <<"add", -1>>, <<"mul", 2>>, <<"set", 0>>, <<"set", 1>>>>
Slots(n) == {<<f, 1>> : f \in PointFields} \cup {<<f, i>> : f \in {"ls", "rs"}, i \in 1..Log2(n)}
TwoProofs(n) == <<Su("p", n), Pr("a", "p", R(601, Two(n))), Pr("b", "p", R(602, Two(n))), Ve("a"), Ve("b")>>
TamperPoint(n, f, i) ==
  TwoProofs(n) \o Flat([h \in 1..Len(PointHows) |-> <<Ta("c", "a", f, i, PointHows[h][1], NLit(PointHows[h][2])), Ve("c")>>])
  \o <<Ta("c", "a", f, i, "add", R(603, QOrd)), Ve("c"), Ta("c", "a", f, i, "offcurve", NLit(0)), Ve("c"), Ta("c", "a", f, i, "unreduced", NLit(0)), Ve("c"),
       Ta("c", "a", f, i, "nil", NLit(0)), Ve("c"), Fr("c", "a", f, i, "b", f, i), Ve("c")>>
TamperPosition(n, f, i) ==       \* components of the same proof and of the other one at another position
  LET others == {s \in Slots(n) : s # <<f, i>>} IN
  {TwoProofs(n) \o <<Fr("c", "a", f, i, b, s[1], s[2]), Ve("c")>> : s \in others, b \in {"a", "b"}}
TamperScalar(n, f) ==
  TwoProofs(n) \o Flat([h \in 1..Len(ScalarHows) |-> <<Ta("c", "a", f, 1, ScalarHows[h][1], NLit(ScalarHows[h][2])), Ve("c")>>])
  \o <<Ta("c", "a", f, 1, "add", R(604, QOrd)), Ve("c"), Ta("c", "a", f, 1, "raw", QOrd), Ve("c"), Ta("c", "a", f, 1, "raw", NNeg(QOrd)), Ve("c"),
       Ta("c", "a", f, 1, "set", NSub(QOrd, NLit(1))), Ve("c"), Ta("c", "a", f, 1, "nil", NLit(0)), Ve("c")>>
  \o Flat([g \in 1..5 |-> LET s == <<"taux", "mu", "t", "a", "b">>[g] IN
           (IF s = f THEN <<>> ELSE <<Fr("c", "a", f, 1, "a", s, 1), Ve("c")>>) \o <<Fr("c", "a", f, 1, "b", s, 1), Ve("c")>>])
TamperShape(n) ==
  TwoProofs(n) \o <<Ta("c", "a", "ls", 1, "ip", NLit(0)) @@ [b |-> "b"], Ve("c")>>
  \o (IF n = 1 THEN <<>> ELSE Flat([i \in 1..Log2(n) |-> <<Ta("c", "a", "ls", i, "drop", NLit(0)), Ve("c"), Ta("c", "c", "rs", i, "drop", NLit(0)), Ve("c"),
                                  Ta("c", "a", "rs", i, "dup", NLit(0)), Ve("c"), Ta("c", "c", "ls", i, "dup", NLit(0)), Ve("c")>>]))
  \o Flat([i \in 1..9 |-> LET m == <<0, 1, 2, 4, 8, 16, 32, 33, 64>>[i] IN IF m = n THEN <<>> ELSE <<Ta("c", "a", "V", 1, "n", NLit(m)), Ve("c")>>])
TamperGens(n, f) ==
  TwoProofs(n) \o Flat([h \in 1..Len(PointHows) |-> <<Ta("c", "a", f, n, PointHows[h][1], NLit(PointHows[h][2])), Ve("c")>>])
\* a prover who chooses generators: parameters of his own, honest otherwise
OwnGens(n, f, how) ==
  <<Su("p", n), Ta("o", "p", f, n, how[1], NLit(how[2])), Pr("a", "o", R(605, Two(n))), Ve("a"), Pr("b", "p", R(605, Two(n))), Ve("b")>>
\* parameters changed by the one who asked for them, in the slices Setup gave: nobody else's parameters change
OwnInPlace(n, f, how) ==
  <<Su("p", n), Ta("p", "p", f, n, how[1], NLit(how[2])), Su("q", n), Pr("a", "p", R(605, Two(n))), Ve("a"), Pr("b", "q", R(605, Two(n))), Ve("b"), Ve("a"),
    Su("r", n), Ta("r", "r", IF f = "gg" THEN "hh" ELSE "gg", 1, "mul", NLit(3)), Su("t", n), Pr("c", "t", R(606, Two(n))), Ve("c"), Ve("b"), Ve("a"), Pr("d", "r", R(606, Two(n))), Ve("d")>>
SwapRoles(n) ==    \* aL and aR generators exchanged
  {<<Su("p", n), Fr("o", "p", "gg", i, "p", "hh", i), Fr("o", "o", "hh", i, "p", "gg", i), Pr("a", "o", R(606, Two(n))), Ve("a")>> : i \in {1, n}}
\* two replacements at once
HowFor(f, tag) == IF f \in ScalarFields THEN <<"add", "neg", "mul", "b">>[1 + RI(tag, 4)] ELSE <<"add", "neg", "mul", "b">>[1 + RI(tag, 4)]
AnyField(n, tag) == LET all == <<"V", "A", "S", "T1", "T2", "C", "taux", "mu", "t", "a", "b">> \o (IF n = 1 THEN <<>> ELSE <<"ls", "rs">>) IN all[1 + RI(tag, Len(all))]
OneTamper(d, a, n, tag) ==
  LET f == AnyField(n, tag) i == IF f \in {"ls", "rs"} THEN 1 + RI(tag + 1, Log2(n)) ELSE 1 h == HowFor(f, tag + 2) IN
  IF h = "b" THEN Fr(d, a, f, i, "b", f, i) ELSE Ta(d, a, f, i, h, NAdd(NLit(2), R(tag + 3, IF RI(tag + 4, 2) = 0 THEN NLit(5) ELSE QOrd)))
Pairs(n, j) == TwoProofs(n) \o Flat([i \in 1..8 |-> LET tag == 700000 + 1000 * n + 100 * j + 10 * i IN
                 <<OneTamper("c", "a", n, tag), OneTamper("e", "c", n, 50000 + tag), Ve("e")>>])
\* compensating changes: c + k and the matching change elsewhere
Algebraic(n) ==
  TwoProofs(n) \o
  <<Ta("c", "a", "T1", 1, "neg", NLit(0)), Ta("c", "c", "T2", 1, "neg", NLit(0)), Ve("c"),
    Fr("c", "a", "T1", 1, "a", "T2", 1), Fr("c", "c", "T2", 1, "a", "T1", 1), Ve("c"),
    Fr("c", "a", "A", 1, "a", "S", 1), Fr("c", "c", "S", 1, "a", "A", 1), Ve("c"),
    Ta("c", "a", "V", 1, "add", NLit(1)), Ta("c", "c", "t", 1, "add", NLit(1)), Ve("c"),
    Ta("c", "a", "t", 1, "neg", NLit(0)), Ta("c", "c", "a", 1, "neg", NLit(0)), Ve("c"),
    Ta("c", "a", "a", 1, "neg", NLit(0)), Ta("c", "c", "b", 1, "neg", NLit(0)), Ve("c"),
    Fr("c", "a", "a", 1, "a", "b", 1), Fr("c", "c", "b", 1, "a", "a", 1), Ve("c"),
    Ta("c", "a", "C", 1, "neg", NLit(0)), Ta("c", "c", "mu", 1, "neg", NLit(0)), Ve("c"),
    Ta("c", "a", "C", 1, "inf", NLit(0)), Ta("c", "c", "t", 1, "set", NLit(0)), Ta("c", "c", "a", 1, "set", NLit(0)), Ta("c", "c", "b", 1, "set", NLit(0)), Ve("c"),
    Ve("a"), Ve("b")>>
  \o (IF n = 1 THEN <<>> ELSE
      <<Fr("c", "a", "ls", 1, "a", "rs", 1), Fr("c", "c", "rs", 1, "a", "ls", 1), Ve("c"),
        Fr("c", "a", "ls", 1, "a", "ls", Log2(n)), Fr("c", "c", "ls", Log2(n), "a", "ls", 1), Ve("c"),
        Ta("c", "a", "ls", 1, "neg", NLit(0)), Ta("c", "c", "rs", 1, "neg", NLit(0)), Ve("c")>>)
\* errors of two components, in all directions and with both signs, that cancel for a verifier who adds up what he should compare
\* separately (G and H are the directions of the commitments)
Moves(n) == <<<<"taux", 1, "add">>, <<"mu", 1, "add">>, <<"t", 1, "add">>, <<"a", 1, "add">>, <<"b", 1, "add">>>>
            \o Flat([i \in 1..6 |-> LET f == <<"V", "A", "S", "T1", "T2", "C">>[i] IN <<<<f, 1, "add">>, <<f, 1, "addh">>>>])
            \o Flat([i \in 1..Log2(n) |-> <<<<"ls", i, "add">>, <<"ls", i, "addh">>, <<"rs", i, "add">>, <<"rs", i, "addh">>>>])
Errors(n, g) ==
  LET ms == Moves(n) e(d, a, m, k) == Ta(d, a, m[1], m[2], m[3], NLit(k)) IN
  TwoProofs(n) \o <<e("c", "a", ms[g], 1)>> \o Flat([h \in 1..Len(ms) |-> IF h <= g THEN <<>> ELSE <<e("e", "c", ms[h], 1), Ve("e"), e("e", "c", ms[h], -1), Ve("e")>>])
\* the same with weights that are challenges: taux and mu are in no challenge, so that a prover can choose their errors last
Weights(ch) ==
  LET ws == <<NLit(1), ch.x, FMul(ch.x, ch.x), ch.y, ch.z, FMul(ch.z, ch.z), ch.w>> \o ch.xs \o [i \in 1..Len(ch.xs) |-> FMul(ch.xs[i], ch.xs[i])] IN
  ws \o [i \in 1..Len(ws) |-> FInv(ws[i])]
Weighted(n) ==
  LET pf == TLCEval(Build(HonestProver(Seed, 450 + n, n, R(451, Two(n))), "none"))
      ws == TLCEval(Weights(WeakChallenges(pf, "none"))) IN
  <<Pu("q", pf), Ve("q")>> \o Flat([i \in 1..Len(ws) |->
      LET c(w) == [pf EXCEPT !.taux = FAdd(@, FMul(w, NLit(5))), !.mu = FAdd(@, NLit(5))] IN <<Pu("c", c(ws[i])), Ve("c"), Pu("c", c(FNeg(ws[i]))), Ve("c")>>]) \o <<Ve("q")>>
\* everything but one component from the other proof
AllBut(n, keep) ==
  LET fs == <<"V", "A", "S", "T1", "T2", "C", "taux", "mu", "t">>
      step(f) == IF f = keep THEN <<>> ELSE <<Fr("c", "c", f, 1, "b", f, 1)>> IN
  TwoProofs(n) \o <<Ta("c", "a", "ls", 1, "ip", NLit(0)) @@ [b |-> IF keep = "ip" THEN "a" ELSE "b"]>>
  \o Flat([i \in 1..9 |-> step(fs[i])]) \o <<Ve("c")>>

\* the same objects, accepted, changed, refused, changed back and accepted again
InPlaceOn(n, slots, ve, ta(_, _, _)) == ve \o Flat([i \in 1..Len(slots) |-> ta(slots[i], "add", 1) \o ve \o ta(slots[i], "add", -1) \o ve])
SlotSeq(n) == <<<<"V", 1>>, <<"A", 1>>, <<"taux", 1>>, <<"S", 1>>, <<"mu", 1>>, <<"T1", 1>>, <<"t", 1>>, <<"T2", 1>>, <<"a", 1>>, <<"C", 1>>, <<"b", 1>>>>
              \o Flat([i \in 1..Log2(n) |-> <<<<"ls", i>>, <<"rs", i>>>>])
InPlace(n, j) ==
  LET all == SlotSeq(n) part == SelectSeq([i \in 1..Len(all) |-> <<i, all[i]>>], LAMBDA z : z[1] % (IF n < 16 THEN 1 ELSE 4) = j % (IF n < 16 THEN 1 ELSE 4)) IN
  <<Mode("reuse"), Su("p", n), Pr("a", "p", R(607, Two(n)))>>
  \o InPlaceOn(n, [i \in 1..Len(part) |-> part[i][2]], <<Ve("a")>>, LAMBDA s, h, k : <<Ta("a", "a", s[1], s[2], h, NLit(k))>>)
  \o <<Pr("a", "p", R(608, Two(n))), Ve("a"), Js("a", "a"), Ve("a")>>
InPlaceG(f) ==
  <<Mode("reuse"), SuG("p", NLit(-3), NLit(200)), PrG("g", "p", NLit(40)), PrG("k", "p", NLit(41)), Ve("g"), Ve("k"), Ha("h", "g", 1), Ha("i", "g", 2), Ha("j", "k", 2), Co("c", "h", "i", NLit(-3), NLit(200)), Ve("c"),
    Ta("h", "h", f, 1, "add", NLit(1)), Co("c", "h", "i", NLit(-3), NLit(200)), Ve("c"), Ta("h", "h", f, 1, "add", NLit(-1)), Co("c", "h", "i", NLit(-3), NLit(200)), Ve("c"),
    Co("c", "h", "j", NLit(-3), NLit(200)), Ve("c"), Co("c", "h", "i", NLit(-3), NLit(201)), Ve("c"), Co("c", "h", "i", NLit(-3), NLit(200)), Ve("c"), Co("c", "i", "h", NLit(-3), NLit(200)), Ve("c"),
    Co("c", "h", "i", NLit(-3), NLit(200)), Ve("c"), Ta("i", "i", f, 1, "add", NLit(1)), Co("c", "h", "i", NLit(-3), NLit(200)), Ve("c"), Ve("g"), Ve("k")>>

(*-------------------------- C05, C07: walks ------------------------------*)
Len05 == IF Thorough THEN 60 ELSE 24
SomeX(n, tag) ==
  LET c == RI(tag, 9) IN
  CASE c = 0 -> NLit(0) [] c = 1 -> Two(n) [] c = 2 -> NNeg(R(tag + 1, Two(n))) [] c = 3 -> NNeg(R(tag + 1, TwoTo(300))) [] c = 4 -> R(tag + 1, TwoTo(300))
    [] OTHER -> R(tag + 1, Two(n))
PSlot(tag) == <<"x1", "x2", "x3", "x4">>[1 + RI(tag, 4)]
WalkStart(n) == <<Mode("reuse"), Su("p", n), Pr("x1", "p", NLit(1)), Pr("x2", "p", Two(n)), Ve("x2"), Pr("x3", "p", NLit(1)), Js("x4", "x1"), Ve("x4")>>
WalkStep(n, w, i) ==
  LET tag == 800000 + 10000 * w + 10 * i c == RI(tag, 12) IN
  CASE c \in 0..3 -> <<Ve(PSlot(tag + 1))>>
    [] c \in 4..5 -> <<Pr(PSlot(tag + 1), "p", SomeX(n, tag + 2))>>
    [] c \in 6..8 -> <<Js(PSlot(tag + 1), PSlot(tag + 2))>>
    [] c = 9 -> <<Ta(PSlot(tag + 1), PSlot(tag + 2), "taux", 1, "add", NLit(RI(tag + 3, 2) + 1))>>
    [] c = 10 -> <<Fr(PSlot(tag + 1), PSlot(tag + 2), "T1", 1, PSlot(tag + 3), "T2", 1)>>
    [] c = 11 -> <<Ve(PSlot(tag + 1)), Ve(PSlot(tag + 1))>>
Walk(n, w) == WalkStart(n) \o Flat([i \in 1..Len05 |-> WalkStep(n, w, i)]) \o <<Ve("x1"), Ve("x2"), Ve("x3"), Ve("x4"), Ve("x1")>>
\* all histories of a given length over a few operations, with parameters of several sizes
HistOps(n) == <<Ve("x1"), Ve("x2"), Js("x1", "x1"), Js("x2", "x1"), Pr("x1", "p", NLit(0)), Pr("x2", "p", Two(n)), Pr("x2", "p", NLit(-3)), Pr("x2", "q", NLit(1)), Su("q", 2), Ta("x2", "x1", "T1", 1, "neg", NLit(0))>>
HistAll(n, f, k) ==
  {<<Su("p", n), Su("q", 2), Pr("x1", "p", NLit(1)), Pr("x2", "q", NLit(2)), f>> \o [i \in 1..k |-> HistOps(n)[w[i]]] \o <<Ve("x1"), Ve("x2"), Ve("x1")>> : w \in [1..k -> 1..Len(HistOps(n))]}
\* sizes in turn: what is left of one must not disturb the other
MixWalk(w) ==
  LET sz == <<1, 2, 4, 8, 16, 32>>
      at(i) == sz[1 + RI(950000 + 100 * w + i, IF i % 4 = 0 THEN 6 ELSE 4)]
      nm(i) == "m" \o ToString(i)
  IN  Flat([i \in 1..6 |-> <<Su(nm(i), at(i)), Pr("c" \o ToString(i), nm(i), R(951000 + 10 * w + i, Two(at(i))))>>])
      \o Flat([i \in 1..6 |-> <<Ve("c" \o ToString(i)), Pr("d" \o ToString(i), nm(i), IF i = 3 THEN Two(at(i)) ELSE IF i = 5 THEN NNeg(R(953000 + 10 * w + i, TwoTo(70))) ELSE R(952000 + 10 * w + i, Two(at(i)))), Ve("d" \o ToString(7 - i))>>])
      \o Flat([i \in 1..6 |-> <<Ve("d" \o ToString(i)), Ve("c" \o ToString(7 - i))>>])
WalkStepG(w, i) ==
  LET tag == 900000 + 10000 * w + 10 * i c == RI(tag, 10)
      x == <<NLit(-5), NLit(-4), NLit(0), NLit(99), NLit(100), NLit(50), NLit(-6), NNeg(R(tag + 5, TwoTo(300))), R(tag + 5, TwoTo(300))>>[1 + RI(tag + 4, 9)]
  IN
  CASE c \in 0..3 -> <<Ve(PSlot(tag + 1))>>
    [] c \in 4..5 -> <<PrG(PSlot(tag + 1), "p", x)>>
    [] OTHER -> <<Js(PSlot(tag + 1), PSlot(tag + 2))>>
WalkG(w) ==
  <<Mode("reuse"), SuG("p", NLit(-5), NLit(100)), PrG("x1", "p", NLit(-5)), PrG("x2", "p", NLit(100)), Ve("x1"), Ve("x1"), Ve("x2"), Ve("x2"), Js("x3", "x1"), Js("x4", "x2")>>
  \o Flat([i \in 1..(Len05 \div 3) |-> WalkStepG(w, i)]) \o <<Ve("x1"), Ve("x2"), Ve("x3"), Ve("x4"), Ve("x1")>>
\* before and after verification, accepted and rejected, twice encoded
Codings(n) ==
  <<Su("p", n), Pr("a", "p", R(611, Two(n))), Js("b", "a"), Js("c", "b"), Ve("b"), Js("e", "b"), Ve("e"), Ve("a"), Js("f", "a"), Ve("f"), Ve("c"), Ve("c"),
    Pr("g", "p", Two(n)), Js("h", "g"), Ve("h"), Ve("g"), Js("i", "g"), Ve("i"),
    Ta("j", "a", "mu", 1, "add", NLit(1)), Js("k", "j"), Ve("k"), Ta("l", "a", "T1", 1, "inf", NLit(0)), Js("m", "l"), Ve("m"),
    Ta("n", "a", "A", 1, "nil", NLit(0)), Js("o", "n"), Ve("o"), Ta("q", "a", "taux", 1, "nil", NLit(0)), Js("r", "q"), Ve("r"),
    Ta("s", "a", "mu", 1, "set", NNeg(TwoTo(300))), Js("t", "s"), Ve("t"), Ve("a")>>
CodingsG ==
  <<SuG("p", NLit(18), NLit(200)), PrG("a", "p", NLit(40)), Js("b", "a"), Js("c", "b"), Ve("b"), Js("e", "b"), Ve("e"), Ve("a"), Js("f", "a"), Ve("f"), Ve("c"),
    PrG("g", "p", NLit(200)), Js("h", "g"), Ve("h"), Ve("g"), Js("i", "g"), Ve("i"), Ve("a"), Ve("a")>>
\* decoding into variables that held another proof: longer or shorter, with parts missing, or of another kind of verdict
Reused(n) ==
  LET sz == <<1, 2, 4, 8, 16, 32>>
      x(i) == <<"x1", "x2", "x3", "x4", "x5", "x6">>[i] IN
  <<Su("p", n), Pr("a", "p", R(613, Two(n))), Pr("g", "p", Two(n)), Ta("j", "a", "T1", 1, "inf", NLit(0)), Ta("k", "a", "A", 1, "nil", NLit(0)), Ta("l", "a", "mu", 1, "set", NNeg(TwoTo(300))),
    Ta("m", "a", "taux", 1, "nil", NLit(0)), Ta("o", "a", "V", 1, "n", NLit(0))>>
  \o Flat([i \in 1..6 |-> <<Su("q", sz[i]), Pr(x(i), "q", R(613 + i, Two(sz[i])))>>])
  \o Flat([i \in 1..6 |-> <<JsI("c", "a", x(i)), Ve("c"), JsI("d", x(i), "a"), Ve("d"), JsI("e", "c", "d"), Ve("e"), Ve("a"), Ve(x(i))>>])
  \o Flat([i \in 1..6 |-> LET t == <<"g", "j", "k", "l", "m", "o">>[i] IN
                            <<JsI("c", t, "a"), Ve("c"), JsI("d", "a", t), Ve("d"), JsI("e", t, x(i)), Ve("e"), JsI("f", x(i), t), Ve("f"), JsI("c", "d", "c"), Ve("c")>>])
ReusedG ==
  <<SuG("p", NLit(18), NLit(200)), PrG("a", "p", NLit(40)), SuG("q", NLit(0), NLit(41)), PrG("b", "q", NLit(40)), PrG("c", "p", NLit(200)), Ve("a"), Ve("c"),
    JsI("d", "b", "a"), Ve("d"), JsI("e", "a", "b"), Ve("e"), JsI("f", "a", "c"), Ve("f"), JsI("g", "c", "b"), Ve("g"), JsI("g", "a", "g"), Ve("g"), Ve("a"), Ve("b"), Ve("c")>>
\* any proof value whatever can be encoded, whether it makes sense or not
ValueHows(f) ==
  IF f \in ScalarFields
  THEN <<<<"raw", QOrd>>, <<"raw", NNeg(QOrd)>>, <<"raw", NMul(QOrd, TwoTo(70))>>, <<"set", NLit(0)>>, <<"set", NLit(-1)>>, <<"set", NLit(1)>>, <<"set", TwoTo(53)>>, <<"set", NNeg(TwoTo(63))>>,
         <<"set", TwoTo(64)>>, <<"set", NAdd(TwoTo(255), NLit(1))>>, <<"set", NSub(QOrd, NLit(1))>>, <<"set", QOrd>>, <<"set", NNeg(TwoTo(300))>>, <<"nil", NLit(0)>>>>
  ELSE <<<<"neg", NLit(0)>>, <<"set", NLit(1)>>, <<"set", NLit(5)>>, <<"inf", NLit(0)>>, <<"zero", NLit(0)>>, <<"offcurve", NLit(0)>>, <<"unreduced", NLit(0)>>, <<"nil", NLit(0)>>>>
Values(n, f, i) ==
  <<Su("p", n), Pr("a", "p", R(613, Two(n))), Ve("a")>>
  \o Flat([h \in 1..Len(ValueHows(f)) |->
       <<Ta("b", "a", f, i, ValueHows(f)[h][1], ValueHows(f)[h][2]), Js("c", "b"), Js("d", "c"), Ve("d"), Ve("b"), Ve("c"), Js("e", "b"), Ve("e")>>])
  \o <<Ve("a")>>
ValuesG(f) ==
  <<SuG("p", NLit(-3), NLit(200)), PrG("g", "p", NLit(40)), Ha("h", "g", 1), Ha("i", "g", 2)>>
  \o Flat([h \in 1..Len(ValueHows(f)) |->
       <<Ta("b", "h", f, 1, ValueHows(f)[h][1], ValueHows(f)[h][2]), Co("c", "b", "i", NLit(-3), NLit(200)), Js("d", "c"), Ve("d"), Ve("c"), Ve("d")>>])
  \o <<Co("c", "h", "i", MinI, MaxI), Js("d", "c"), Ve("d"), Co("c", "i", "h", MaxI, NLit(0)), Js("d", "c"), Ve("d"), Co("c", "h", "i", NLit(-3), NLit(200)), Js("d", "c"), Ve("d")>>
ShapesOf(n) ==
  <<Su("p", n), Pr("a", "p", R(613, Two(n)))>>
  \o Flat([i \in 1..8 |-> <<Ta("b", "a", "V", 1, "n", NLit(<<0, 1, 2, 4, 8, 33, 64, -1>>[i])), Js("c", "b"), Ve("c"), Js("d", "c"), Ve("b"), Ve("d")>>])
  \o (IF n = 1 THEN <<>> ELSE <<Ta("b", "a", "ls", 1, "drop", NLit(0)), Js("c", "b"), Ve("c"), Ta("b", "a", "rs", 1, "dup", NLit(0)), Js("c", "b"), Ve("c"), Ve("b")>>)

Forms == {<<Pu("a", Build(HonestProver(Seed, 612, n, R(612, Two(n))), "none")), Js("b", "a"), Ve("b"), Ve("a"), Js("c", "b"), Ve("c")>> : n \in Sizes}

(*-------------------------------- C06 ------------------------------------*)
Intervals == <<<<NLit(18), NLit(200)>>, <<NLit(0), NLit(1)>>, <<NLit(-10), NLit(10)>>, <<NLit(0), MaxEnd>>, <<NNeg(Two(31)), Two(31)>>,
               <<NSub(MaxI, MaxEnd), MaxI>>, <<MinI, NAdd(MinI, MaxEnd)>>, <<MinI, NAdd(MinI, NLit(3))>>, <<NSub(MaxI, NLit(2)), MaxI>>,
               <<NLit(7), NLit(7)>>, <<NSub(NLit(0), Two(40)), NAdd(NNeg(Two(40)), Two(31))>>, <<NLit(-1), NLit(0)>>>>
GenericXs(a, b) ==
  {NSub(a, NLit(1)), a, NSub(b, NLit(1)), b, NAdd(b, NLit(1)), NDiv(NAdd(a, b), NLit(2)), NAdd(a, MaxEnd), NSub(b, MaxEnd)}
  \cup (IF Thorough THEN {NAdd(a, NLit(1)), NSub(b, NLit(2)), NSub(NSub(b, MaxEnd), NLit(1)), NAdd(NAdd(a, MaxEnd), NLit(1)), NAdd(QOrd, a), NSub(a, QOrd),
                          TwoTo(64), NNeg(TwoTo(64)), TwoTo(300), NNeg(b), NNeg(a), NAdd(a, TwoTo(64)), NAdd(a, R(621, NAdd(NSub(b, a), NLit(1))))}
        ELSE {TwoTo(300)})
GenericScript(v, x) == LET a == Intervals[v][1] b == Intervals[v][2] IN <<SuG("p", a, b), PrG("q", "p", x), Ve("q")>>
\* secrets and intervals that agree in part
CollGeneric(v) ==
  LET a == Intervals[v][1] b == Intervals[v][2] x == NSub(b, NLit(1)) xs == Coll(x) IN
  <<Mode("reuse"), SuG("p", a, b)>> \o Flat([i \in 1..Len(xs) |-> IF i \in {4, 11} THEN <<>> ELSE <<PrG("q", "p", xs[i])>> \o (IF i \in {1, 8} THEN <<Ve("q")>> ELSE <<>>)])
CollIntervals(j) ==
  LET iv == <<<<NLit(18), NLit(200)>>, <<NLit(0), NLit(182)>>, <<NLit(18), NLit(201)>>, <<NLit(-18), NLit(200)>>, <<NAdd(TwoTo(32), NLit(18)), NAdd(TwoTo(32), NLit(200))>>, <<NLit(18), NLit(200)>>>>
      x == <<NLit(100), NLit(17), NLit(200), NLit(-1), NAdd(TwoTo(32), NLit(20))>>[j] IN
  <<Mode("reuse")>> \o Flat([i \in 1..Len(iv) |-> <<SuG("p" \o ToString(i), iv[i][1], iv[i][2])>>])
  \o Flat([i \in 1..Len(iv) |-> <<PrG("q", "p" \o ToString(i), x)>> \o (IF i \in {2, 5} THEN <<Ve("q")>> ELSE <<>>)])
BadIntervals ==
  {<<NLit(200), NLit(18)>>, <<NLit(1), NLit(0)>>, <<NLit(0), NAdd(MaxEnd, NLit(1))>>, <<NLit(-1), MaxEnd>>, <<MinI, MaxI>>, <<MaxI, MinI>>, <<MinI, NLit(0)>>, <<NLit(0), MaxI>>,
   <<NLit(0), MinI>>, <<NLit(-1), MaxI>>, <<MinI, NLit(-1)>>, <<NLit(0), Two(33)>>, <<NLit(0), Two(62)>>, <<NNeg(Two(62)), Two(62)>>, <<NLit(5), NLit(-5)>>,
   <<NNeg(Two(32)), NLit(1)>>, <<NSub(MaxI, MaxEnd), NSub(MaxI, NAdd(MaxEnd, NLit(1)))>>, <<NSub(NSub(MaxI, MaxEnd), NLit(1)), MaxI>>}
  \cup {<<NSub(R(630 + i, TwoTo(64)), TwoTo(63)), NSub(R(660 + i, TwoTo(64)), TwoTo(63))>> : i \in 1..20}
  \cup {<<Intervals[i][1], Intervals[i][2]>> : i \in 1..Len(Intervals)}
Mixed(v) ==
  LET a == Intervals[v][1] b == Intervals[v][2]
      x == a y == NSub(b, NLit(1)) up(z, k) == NAdd(z, NLit(k))
  IN  {<<SuG("p", a, b), PrG("g", "p", x), PrG("h", "p", y), Ve("g"), Ve("h"),
         Ha("g1", "g", 1), Ha("g2", "g", 2), Ha("h1", "h", 1), Ha("h2", "h", 2), Ve("g1"), Ve("g2"),
         Co("c", "g1", "g2", a, b), Ve("c"), Co("c", "g1", "h2", a, b), Ve("c"), Co("c", "h1", "g2", a, b), Ve("c"), Co("c", "g2", "g1", a, b), Ve("c"),
         Co("c", "g1", "g1", a, b), Ve("c"), Co("c", "g2", "g2", a, b), Ve("c"),
         Js("d", "c"), Ve("d"), Ve("g"), Ve("h"),
         Su("ps", 32), Pr("s", "ps", NLit(5)), Co("c", "s", "g2", a, b), Ve("c"), Co("c", "g1", "s", a, b), Ve("c"), Co("c", "s", "s", a, b), Ve("c"),
         Ta("g1t", "g1", "mu", 1, "add", NLit(1)), Co("c", "g1t", "g2", a, b), Ve("c"), Ta("g2t", "g2", "T1", 1, "add", NLit(1)), Co("c", "g1", "g2t", a, b), Ve("c")>>}
      \cup (IF NLt(MinI, a) /\ NLt(b, MaxI) THEN
       {<<SuG("p", a, b), PrG("g", "p", x), Ha("g1", "g", 1), Ha("g2", "g", 2),
         Co("c", "g1", "g2", up(a, 1), b), Ve("c"), Co("c", "g1", "g2", up(a, -1), b), Ve("c"), Co("c", "g1", "g2", a, up(b, 1)), Ve("c"), Co("c", "g1", "g2", a, up(b, -1)), Ve("c"),
         Co("c", "g1", "g2", b, a), Ve("c"), Co("c", "g1", "g2", up(a, -1), up(b, 1)), Ve("c"), Co("c", "g1", "g2", NLit(0), MaxEnd), Ve("c"),
         Co("c", "g1", "g2", MinI, MaxI), Ve("c"), Co("c", "g1", "g2", NLit(0), NLit(0)), Ve("c")>>} ELSE {})

\* errors of the same component in both halves that cancel for a verifier who adds the halves up
ErrorsG(v, g) ==
  LET a == Intervals[v][1] b == Intervals[v][2] m == Moves(1)[g] e(d, s, k) == Ta(d, s, m[1], m[2], m[3], NLit(k)) IN
  <<SuG("p", a, b), PrG("g", "p", a), Ha("g1", "g", 1), Ha("g2", "g", 2), e("x", "g1", 1), e("y", "g2", -1), e("z", "g2", 1),
    Co("c", "x", "y", a, b), Ve("c"), Co("c", "x", "z", a, b), Ve("c"), Co("c", "g1", "g2", a, b), Ve("c")>>

(*-------------------------------- C10 ------------------------------------*)
VecKind(kind, n, tag) ==
  [i \in 1..n |-> CASE kind = 1 -> R(tag + i, QOrd)
                    [] kind = 2 -> NLit((i * 7 + tag) % 5)
                    [] kind = 3 -> NNeg(R(tag + i, QOrd))
                    [] kind = 4 -> NAdd(R(tag + i, QOrd), NMul(QOrd, NLit(i)))
                    [] kind = 5 -> IF i = n THEN NLit(1) ELSE NLit(0)
                    [] kind = 6 -> NSub(QOrd, NLit(i))
                    [] kind = 7 -> NLit(1)
                    [] kind = 0 -> NLit(0)]
IPOp(d, a, b, c) == [op |-> "IP", d |-> d, n |-> NLit(Len(a)), a |-> a, b |-> b, c |-> c, how |-> "commit"]
IPOther(d, a, b, c, a2, b2) == [IPOp(d, a, b, c) EXCEPT !.how = "other"] @@ [a2 |-> a2, b2 |-> b2]
TaI(d, a, f, i, how, k) == [Ta(d, a, f, i, how, k) EXCEPT !.op = "TamperIP"]
IPScripts(n, ka, kb) ==
  LET a == VecKind(ka, n, 2000 + 100 * ka) b == VecKind(kb, n, 4000 + 100 * kb) c == Dot(a, b) IN
  {<<IPOp("i", a, b, c), Ve("i"), Ve("i")>>, <<IPOp("i", a, b, NAdd(c, QOrd)), Ve("i")>>, <<IPOp("i", a, b, NSub(c, QOrd)), Ve("i")>>}
  \cup (IF ka = 0 \/ kb = 0 \/ ka = 5 \/ kb = 5 THEN {} ELSE
        {<<IPOp("i", a, b, FAdd(c, NLit(1))), Ve("i")>>, <<IPOp("i", a, b, FNeg(c)), Ve("i")>>, <<IPOp("i", a, b, R(5000 + n, QOrd)), Ve("i")>>,
         <<IPOther("i", a, b, c, VScale(NLit(2), a), b), Ve("i")>>, <<IPOther("i", a, b, c, a, VAdd(b, a)), Ve("i")>>})
IPTampers(n) ==
  LET a == VecKind(1, n, 6000) b == VecKind(1, n, 6200)
      start == <<IPOp("i", a, b, Dot(a, b)), IPOp("j", b, a, Dot(a, b)), Ve("i"), Ve("j")>>
      pts == {<<"u", 1>>, <<"P", 1>>, <<"gg", 1>>, <<"gg", n>>, <<"hh", 1>>, <<"hh", n>>} \cup {<<f, i>> : f \in {"ls", "rs"}, i \in 1..Log2(n)}
  IN  {start \o Flat([h \in 1..Len(PointHows) |-> <<TaI("k", "i", s[1], s[2], PointHows[h][1], NLit(PointHows[h][2])), Ve("k")>>])
       \o <<[Fr("k", "i", s[1], s[2], "j", s[1], s[2]) EXCEPT !.op = "TamperIP"], Ve("k"), TaI("k", "i", s[1], s[2], "nil", NLit(0)), Ve("k"),
            TaI("k", "i", s[1], s[2], "add", R(6401, QOrd)), Ve("k")>> : s \in pts}
      \cup {start \o Flat([h \in 1..Len(ScalarHows) |-> <<TaI("k", "i", f, 1, ScalarHows[h][1], NLit(ScalarHows[h][2])), Ve("k")>>])
            \o <<TaI("k", "i", f, 1, "nil", NLit(0)), Ve("k"), TaI("k", "i", f, 1, "add", R(6402, QOrd)), Ve("k"),
                 [Fr("k", "i", f, 1, "i", IF f = "a" THEN "b" ELSE "a", 1) EXCEPT !.op = "TamperIP"], Ve("k")>> : f \in {"a", "b"}}
      \cup (IF n = 1 THEN {} ELSE
            {start \o <<TaI("k", "i", "ls", i, "drop", NLit(0)), Ve("k"), TaI("k", "k", "rs", i, "drop", NLit(0)), Ve("k"),
                        TaI("k", "i", "ls", i, "dup", NLit(0)), Ve("k"), TaI("k", "k", "rs", i, "dup", NLit(0)), Ve("k"),
                        TaI("k", "i", "V", 1, "n", NLit(n \div 2)), Ve("k"), TaI("k", "i", "V", 1, "n", NLit(2 * n)), Ve("k"),
                        TaI("k", "i", "V", 1, "n", NLit(0)), Ve("k"), TaI("k", "i", "V", 1, "n", NLit(-1)), Ve("k"), Ve("i")>> : i \in 1..Log2(n)})
InPlaceIP(n) ==
  LET a == VecKind(1, n, 6500) b == VecKind(1, n, 6600) IN
  <<Mode("reuse"), IPOp("i", a, b, Dot(a, b))>>
  \o InPlaceOn(n, <<<<"a", 1>>, <<"b", 1>>, <<"P", 1>>, <<"u", 1>>, <<"gg", 1>>, <<"hh", n>>>> \o Flat([i \in 1..Log2(n) |-> <<<<"ls", i>>, <<"rs", i>>>>]), <<Ve("i")>>,
                LAMBDA s, h, k : <<TaI("i", "i", s[1], s[2], h, NLit(k))>>)
  \o <<IPOp("i", b, a, Dot(a, b)), Ve("i"), IPOp("i", b, a, FAdd(Dot(a, b), NLit(1))), Ve("i")>>
\* with the caller's generators, which share some of their entries from one statement to the next
Own1(n, gk, hk, o) == o @@ [gk |-> gk, hk |-> hk]
IPOwn(n, j) ==
  LET a == VecKind(1, n, 6700 + 10 * j) b == VecKind(1, n, 6800 + 10 * j) c == Dot(a, b)
      one == VecKind(7, n, 0)
      some(t) == [i \in 1..n |-> IF i = 1 \/ RI(t + i, 2) = 0 THEN NLit(1) ELSE NAdd(NLit(2), R(t + 100 + i, NSub(QOrd, NLit(2))))]
      pows(y) == [i \in 1..n |-> NMod(FPow(y, i - 1), QOrd)]
      y == R(6901 + j, QOrd) z == R(6902 + j, QOrd)
      kinds == <<<<one, one>>, <<one, pows(y)>>, <<one, pows(z)>>, <<pows(y), one>>, <<pows(z), one>>, <<pows(y), pows(z)>>, <<pows(z), pows(y)>>, <<some(6910 + j), some(6920 + j)>>, <<some(6920 + j), some(6930 + j)>>, <<one, one>>>>
  IN  Flat([k \in 1..Len(kinds) |-> LET g == kinds[1 + (((k - 1) * (2 * (j % 4) + 1) + j) % 10)]
                                        m == (k + j) % 4 IN
             <<Own1(n, g[1], g[2], IF m = 3 THEN IPOp("i", a, b, FAdd(c, NLit(1))) ELSE IF m = 2 THEN IPOp("i", b, a, c) ELSE IPOp("i", a, b, c)), Ve("i")>>])
IPSizes(n, m) == <<[IPOp("i", VecKind(1, n, 7000), VecKind(1, m, 7100), NLit(0)) EXCEPT !.n = NLit(n), !.how = "base"]>>

(*-------------------------------- C11 ------------------------------------*)
Mutations == {"missing", "null", "zero", "one", "minus", "n33", "n64", "big", "least", "huge", "plus", "plusp", "plusq", "negate", "empty", "object", "string",
              "infinity", "origin", "offcurve", "half", "double", "short", "nullitems", "long"}

\* two places at once, where the second change may make up for the first
Structural == {"missing", "null", "zero", "minus", "n33", "n64", "empty", "object", "infinity", "origin", "half", "double", "short", "nullitems", "long", "negate", "plus"}
Mu2(a, h, g, tag, cnt) == [op |-> "Mutate", a |-> a, how |-> h, how2 |-> g, at |-> [i \in 1..2 * cnt |-> R(tag + i, NLit(1000000007))]]
Mut2(n, h, g, cnt) ==
  IF n = 0 THEN <<SuG("p", NLit(0), NLit(10)), PrG("a", "p", NLit(4)), Mu2("a", h, g, 84000, cnt)>>
  ELSE <<Su("p", n), Pr("a", "p", R(8402, Two(n))), Mu2("a", h, g, 85000 + n, cnt)>>

Holes(n) ==
  <<Su("p", n), Pr("a", "p", R(8403, Two(n))),
    [op |-> "Holes", a |-> "a", sizes |-> L(<<n, 0, 1, 2, 3, 4, 8, 32, 33, 64, -1>>), nl |-> L(<<-1, 0, 1, 2, 3>>), nr |-> L(<<-1, 0, 1, 2, 3>>),
     gens |-> <<"std", "none", "short", "hole">>], Ve("a"),
    Ta("b", "a", "t", 1, "add", NLit(1)),
    [op |-> "Holes", a |-> "b", sizes |-> L(<<n>>), nl |-> L(<<0, 1, 2, 3>>), nr |-> L(<<0, 1, 2, 3>>), gens |-> <<"std">>], Ve("b")>>

(*-------------------------------- C08 ------------------------------------*)
Tape(d, p, x, s, fl) == [op |-> "Tape", d |-> d, p |-> p, x |-> x, seed |-> s, flips |-> fl]
Tapes(n, x) == <<Su("p", n), Tape("a", "p", x, R(8001, QOrd), 1), Tape("b", "p", x, R(8002, QOrd), 0), Ve("a"), Pr("c", "p", x), Tape("d", "p", x, R(8003, QOrd), 0)>>

(*-------------------------------- C12 ------------------------------------*)
Par(p, xs, vs) == [op |-> "Par", p |-> p, xs |-> xs, vs |-> vs]
ParScript(n, j) ==
  <<Su("p", n), Pr("a", "p", R(8101 + j, Two(n))), Pr("b", "p", Two(n)), Pr("c", "p", NLit(0)),
    Par("p", [i \in 1..8 |-> IF i = 3 THEN Two(n) ELSE IF i < 6 THEN R(8200 + 10 * j + i, Two(n)) ELSE R(8300 + j, Two(n))],
        <<"a", "a", "b", "c", "a", "c">>), Ve("a"), Ve("b"), Ve("c"), Pr("d", "p", NLit(1)), Ve("d")>>
ParScriptG(j) ==
  <<SuG("p", NLit(-18), NLit(200)), PrG("a", "p", NLit(j)), PrG("b", "p", NLit(200)),
    Par("p", [i \in 1..5 |-> IF i = 2 THEN NLit(-19) ELSE NLit(10 * i)], <<"a", "b", "a", "a">>), Ve("a"), Ve("b")>>

(*-------------------------------- C30 ------------------------------------*)
MeetIP(d, n, k) == [op |-> "IP", d |-> d, n |-> NLit(n), a |-> [i \in 1..n |-> R(8500 + k + i, QOrd)], b |-> [i \in 1..n |-> R(8550 + k + i, QOrd)], c |-> R(8599 + k, QOrd), how |-> "commit", a2 |-> <<>>, b2 |-> <<>>]
MeetScript(j) ==
  LET n == <<1, 2, 4, 8>>[1 + (j % 4)] IN
  <<Su("p", n), Pr("a", "p", R(8401 + j, Two(n))), Pr("b", "p", Two(n))>>
  \o (CASE j % 3 = 0 -> <<SuG("g", NLit(-18), NLit(200)), PrG("h", "g", NLit(j)),
                          Together(<<SuG("i", NLit(0), NLit(9)), SuG("m", NLit(9), NLit(0)), PrG("h1", "g", NLit(-18)), PrG("h2", "g", NLit(-19)), Ve("h"), Ve("h"), Js("k", "h"), Js("l", "h")>>), Ve("h")>>
        [] j % 3 = 1 -> <<Together(<<Su("q", 1), Su("r", 8), Su("s", 2), [op |-> "Setup", d |-> "t", b |-> NLit(3)], Su("u", n), Pr("c", "p", NLit(1)), Pr("d", "p", NLit(-1)), Ve("a"), Ve("b"), Js("e", "a")>>)>>
        [] OTHER -> <<Js("w", "a"), Together(<<MeetIP("x", 4, 10 * j), MeetIP("y", 2, 10 * j + 100), Ve("a"), Ve("w"), Js("e", "a"), Js("f", "w"), Ve("a"), Su("q", 4), Pr("c", "p", NLit(0)), Pr("d", "p", NLit(0))>>), Ve("w")>>)
  \o <<Ve("a"), Ve("b"), Pr("c", "p", NLit(1)), Ve("c")>>

\* eight calls of the same function
SameScript(j) ==
  LET n == <<4, 2, 8, 1>>[1 + (j % 4)] nm(i) == "n" \o ToString(i) All(Call(_)) == <<Together([i \in 1..8 |-> Call(i)])>> IN
  <<Su("p", n), Pr("a", "p", R(8601 + j, Two(n))), Pr("b", "p", Two(n)), Js("w", "a"), SuG("g", NLit(-18), NLit(200)), PrG("h", "g", NLit(j)), PrG("m", "g", NLit(-19))>>
  \o (CASE j % 8 = 0 -> All(LAMBDA i : Ve(<<"a", "b", "w">>[1 + (i % 3)]))
        [] j % 8 = 1 -> All(LAMBDA i : Pr(nm(i), "p", R(8610 + 10 * j + i, Two(n))))
        [] j % 8 = 2 -> All(LAMBDA i : Js(nm(i), <<"a", "b", "h", "w">>[1 + (i % 4)]))
        [] j % 8 = 3 -> All(LAMBDA i : Su(nm(i), <<1, 2, 4, 8, 2, 8, 4, 16>>[i]))
        [] j % 8 = 4 -> All(LAMBDA i : MeetIP(nm(i), <<4, 2, 4, 1, 4, 2, 8, 4>>[i], 10 * j + 7 * i))
        [] j % 8 = 5 -> All(LAMBDA i : Ve(IF i % 3 = 0 THEN "m" ELSE "h"))
        [] j % 8 = 6 -> All(LAMBDA i : PrG(nm(i), "g", <<NLit(-18), NLit(199), NLit(200), NLit(7)>>[1 + (i % 4)]))
        [] OTHER -> All(LAMBDA i : SuG(nm(i), NLit(-5 * i), NLit(50 - 7 * i))))
  \o <<Ve("a"), Ve("b"), Pr("c", "p", NLit(1)), Ve("c")>>

(*------------------------------------------------------------------------*)
Small == {1, 2, 4, 8}
Chunks ==
  CASE Part = "C01" -> {<<"complete", n, x>> : n \in Sizes, x \in {}} \cup UNION {{<<"complete", n, x>> : x \in Inside(n)} : n \in Sizes}
                       \cup UNION {{<<"indep", n, x>> : x \in Inside(n)} : n \in Sizes} \cup {<<"many", n>> : n \in Sizes}
                       \cup {<<"coll", n, j>> : n \in Sizes \ {32}, j \in 1..(IF Thorough THEN 6 ELSE 2)} \cup {<<"collsizes", j>> : j \in {1, 5, 7, 11}}
    [] Part = "C02" -> UNION {{<<"complete", n, x>> : x \in Outside(n)} : n \in Sizes}
                       \cup UNION {{<<"forged", n, lie, i, d>> : lie \in LiesFor(n), i \in 1..(IF Thorough THEN 8 ELSE 3), d \in 1..2} : n \in IF Thorough THEN Sizes ELSE Sizes \ {16}}
                       \cup {<<"coll", n, j>> : n \in Sizes \ {32}, j \in 3..(IF Thorough THEN 8 ELSE 4)} \cup {<<"collsizes", j>> : j \in {13, 17}}
    [] Part = "C03" -> {<<"setup", b>> : b \in Ends} \cup {<<"collsetup", j>> : j \in (IF Thorough THEN 1..24 ELSE 1..6)}
    [] Part = "C04" -> UNION {{<<"tp", n, s>> : s \in Slots(n)} : n \in (IF Thorough THEN Sizes ELSE {1, 4, 32})}
                       \cup UNION {{<<"pos", n, s>> : s \in Slots(n)} : n \in (IF Thorough THEN {1, 2, 8} ELSE {4})}
                       \cup {<<"ts", n, f>> : n \in Sizes, f \in ScalarFields} \cup {<<"shape", n>> : n \in Sizes}
                       \cup {<<"gens", n, f>> : n \in Sizes, f \in {"G", "H", "gg", "hh"}}
                       \cup {<<"own", n, f, h>> : n \in {1, 8}, f \in {"G", "H", "gg", "hh"}, h \in {<<"neg", 0>>, <<"mul", 2>>, <<"add", 1>>, <<"set", 5>>}}
                       \cup {<<"ownin", n, f, h>> : n \in {1, 4, 32}, f \in {"gg", "hh"}, h \in {<<"neg", 0>>, <<"set", 5>>}}
                       \cup {<<"swap", n>> : n \in {2, 8}} \cup {<<"alg", n>> : n \in Sizes}
                       \cup UNION {{<<"errors", n, g>> : g \in 1..Len(Moves(n))} : n \in (IF Thorough THEN Sizes ELSE {1, 2})} \cup {<<"errors", n, g>> : n \in Sizes, g \in 1..4} \cup {<<"weighted", n>> : n \in Sizes}
                       \cup {<<"allbut", n, k>> : n \in {1, 4, 32}, k \in {"V", "A", "S", "T1", "T2", "C", "taux", "mu", "t", "ip"}}
                       \cup {<<"pairs", n, j>> : n \in Sizes, j \in 1..(IF Thorough THEN 40 ELSE 3)}
                       \cup {<<"inplace", n, 0>> : n \in {1, 2, 4, 8}} \cup {<<"inplace", n, j>> : n \in (IF Thorough THEN {16, 32} ELSE {16}), j \in 0..3}
    [] Part = "C05" -> {<<"inplace", n, 0>> : n \in {1, 4}} \cup {<<"inplaceg", f>> : f \in (IF Thorough THEN {"V", "A", "S", "T1", "T2", "C", "taux", "mu", "t", "a", "b"} ELSE {"V", "mu"})} \cup {<<"inplaceip", n>> : n \in {1, 4}} \cup {<<"hist", n, f, k>> : n \in (IF Thorough THEN {1, 2, 4} ELSE {1}), f \in 1..Len(HistOps(1)), k \in {IF Thorough THEN 2 ELSE 1}} \cup {<<"mix", w>> : w \in 1..(IF Thorough THEN 20 ELSE 4)} \cup {<<"walk", n, w>> : n \in Sizes, w \in 1..(IF Thorough THEN 12 ELSE 3)} \cup {<<"walkg", w>> : w \in 1..(IF Thorough THEN 30 ELSE 6)}
                       \cup {<<"ip", n, k, 1>> : n \in {1, 2, 8}, k \in {1, 3}}
    [] Part = "C06" -> UNION {{<<"gx", v, x>> : x \in GenericXs(Intervals[v][1], Intervals[v][2])} : v \in 1..Len(Intervals)}
                       \cup {<<"collg", v>> : v \in (IF Thorough THEN 1..Len(Intervals) ELSE {1, 3, 9})} \cup {<<"collint", j>> : j \in 1..(IF Thorough THEN 5 ELSE 3)} \cup {<<"inplaceg", "V">>}
                       \cup {<<"errorsg", v, g>> : v \in (IF Thorough THEN {1, 3, 5} ELSE {3}), g \in 1..Len(Moves(1))} \cup {<<"badint", i>> : i \in BadIntervals} \cup {<<"mixed", v>> : v \in (IF Thorough THEN 1..Len(Intervals) ELSE {1, 3, 5})}
    [] Part = "C07" -> {<<"code", n>> : n \in Sizes} \cup {<<"reused", n>> : n \in Sizes} \cup {<<"codeg">>, <<"forms">>}
                       \cup {<<"vals", n, f, 1>> : n \in (IF Thorough THEN Sizes ELSE {1, 4}), f \in ScalarFields \cup PointFields}
                       \cup {<<"vals", n, f, Log2(n)>> : n \in (IF Thorough THEN {2, 4, 16} ELSE {4}), f \in {"ls", "rs"}}
                       \cup {<<"vals", 2, f, 2>> : f \in {"gg", "hh"}} \cup {<<"vals", 2, f, 1>> : f \in {"G", "H"}}
                       \cup {<<"valsg", f>> : f \in (IF Thorough THEN ScalarFields \cup PointFields ELSE {"V", "t"})} \cup {<<"shapes", n>> : n \in Sizes} \cup {<<"walk", n, w>> : n \in (IF Thorough THEN Sizes ELSE Small), w \in 21..(IF Thorough THEN 30 ELSE 22)}
                       \cup {<<"walkg", w>> : w \in 41..(IF Thorough THEN 50 ELSE 42)}
    [] Part = "C08" -> UNION {{<<"tape", n, x>> : x \in {NLit(0), NSub(Two(n), NLit(1)), R(8000, Two(n))}} : n \in Sizes} \cup {<<"tapeg", i>> : i \in 1..(IF Thorough THEN 8 ELSE 2)}
                       \cup UNION {{<<"tape", n, x>> : x \in {R(8000 + i, Two(n)) : i \in 1..(IF Thorough THEN 12 ELSE 0)}} : n \in Small}
    [] Part = "C09" -> UNION {{<<"indep", n, x>> : x \in Inside(n)} : n \in Sizes}
                       \cup UNION {{<<"dev", n, lie>> : lie \in LiesFor(n)} : n \in Sizes}
                       \cup UNION {{<<"forged", n, lie, i, 1>> : lie \in {"V", "A", "S", "T1", "T2", "stmt", "t"} \cup (IF n = 1 THEN {} ELSE {"ipL", "ipR", "ipP"}),
                                    i \in (IF Thorough THEN 2..6 ELSE {2})} : n \in Sizes}
                       \cup UNION {{<<"tp", n, s>> : s \in Slots(n)} : n \in {2}} \cup {<<"alg", n>> : n \in {2, 8}}
    [] Part = "C10" -> {<<"ip", n, ka, kb>> : n \in {1, 2, 4, 8}, ka \in 0..7, kb \in 0..7} \cup {<<"ip", n, ka, 1>> : n \in {16, 32, 64}, ka \in 0..7} \cup {<<"ip", n, 1, 1>> : n \in {128, 256}} \cup {<<"inplaceip", n>> : n \in {1, 2, 4, 8} \cup (IF Thorough THEN {16, 32} ELSE {})}
                       \cup {<<"ipown", n, j>> : n \in {1, 2, 4, 8}, j \in (IF Thorough THEN 0..7 ELSE 0..1)} \cup {<<"ipown", 16, j>> : j \in (IF Thorough THEN 0..3 ELSE {1})}
                       \cup {<<"iptamper", n>> : n \in {1, 2, 4, 8, 16} \cup (IF Thorough THEN {32, 64} ELSE {})} \cup {<<"ipsize", n, m>> : n \in {1, 2, 4}, m \in {1, 2, 3, 4, 8}}
    [] Part = "C11" -> {<<"mut", n, h>> : n \in (IF Thorough THEN Sizes ELSE {1, 4, 32}), h \in Mutations} \cup {<<"mutg", h>> : h \in Mutations}
                       \cup {<<"holes", n>> : n \in (IF Thorough THEN {1, 2, 4, 8} ELSE {1, 2, 4})}
                       \cup {<<"mut2", n, h>> : n \in (IF Thorough THEN {0, 1, 2, 8} ELSE {2}), h \in Structural}
                       \cup {<<"shape", n>> : n \in Sizes}
    [] Part = "C12" -> {<<"par", n, j>> : n \in {1, 4, 8}, j \in 1..(IF Thorough THEN 30 ELSE 3)} \cup {<<"par", 32, j>> : j \in 1..(IF Thorough THEN 8 ELSE 1)}
                       \cup {<<"parg", j>> : j \in 1..(IF Thorough THEN 8 ELSE 1)}
    [] Part = "C30" -> {<<"meet", j>> : j \in 1..(IF Thorough THEN 48 ELSE 6)} \cup {<<"same", j>> : j \in 1..(IF Thorough THEN 48 ELSE 8)}
    [] Part = "C29" -> {<<"fail", n, j>> : n \in Sizes, j \in 1..(IF Thorough THEN 4 ELSE 2)} \cup {<<"failg", j>> : j \in 1..(IF Thorough THEN 8 ELSE 4)}

(*-------------------------------- C29 ------------------------------------*)
FailStep(n) == IF Thorough \/ n <= 4 THEN 1 ELSE IF n = 8 THEN 3 ELSE 11
FailProve(n, j) ==
  <<Su("p", n), Pr("z", "p", R(8501, Two(n))), Ve("z"),
    FailAt(Pr("q", "p", IF j = 1 THEN NLit(0) ELSE R(8501 + j, Two(n))), <<Ve("z"), Pr("q2", "p", R(8601, Two(n))), Ve("q2")>>, <<"ok", "ok">>, <<"ok", "ok">>, FailStep(n)),
    Pr("q", "p", R(8602, Two(n))), Ve("q")>>
FailGeneric(j) ==
  <<SuG("p", NLit(-7), NLit(1000)), PrG("z", "p", NLit(5)), Ve("z"),
    FailAt(PrG("q", "p", NLit(7 * j)), <<Ve("z"), PrG("q2", "p", NLit(-7)), Ve("q2")>>, <<"ok", "ok">>, <<"ok", "ok">>, IF Thorough THEN 2 ELSE 23), PrG("q", "p", NLit(999)), Ve("q")>>

Scripts(c) ==
  CASE c[1] = "complete" -> Complete(c[2], c[3])
    [] c[1] = "indep" -> Independent(c[2], c[3])
    [] c[1] = "many" -> {Many(c[2])}
    [] c[1] = "coll" -> {CollProve(c[2], c[3])}
    [] c[1] = "collsizes" -> {CollSizes(c[2])}
    [] c[1] = "collsetup" -> {CollSetup(c[2])}
    [] c[1] = "collg" -> {CollGeneric(c[2])}
    [] c[1] = "collint" -> {CollIntervals(c[2])}
    [] c[1] = "inplace" -> {InPlace(c[2], c[3])}
    [] c[1] = "inplaceg" -> {InPlaceG(c[2])}
    [] c[1] = "inplaceip" -> {InPlaceIP(c[2])}
    [] c[1] = "forged" -> Forged(c[2], c[3], c[4], c[5])
    [] c[1] = "dev" -> Deviating(c[2], c[3])
    [] c[1] = "setup" -> {<<[op |-> "Setup", d |-> "p", b |-> c[2]], [op |-> "Setup", d |-> "q", b |-> c[2]]>>}
    [] c[1] = "tp" -> {TamperPoint(c[2], c[3][1], c[3][2])}
    [] c[1] = "pos" -> TamperPosition(c[2], c[3][1], c[3][2])
    [] c[1] = "ts" -> {TamperScalar(c[2], c[3])}
    [] c[1] = "shape" -> {TamperShape(c[2])}
    [] c[1] = "gens" -> {TamperGens(c[2], c[3])}
    [] c[1] = "own" -> {OwnGens(c[2], c[3], c[4])}
    [] c[1] = "ownin" -> {OwnInPlace(c[2], c[3], c[4])}
    [] c[1] = "swap" -> SwapRoles(c[2])
    [] c[1] = "alg" -> {Algebraic(c[2])}
    [] c[1] = "errorsg" -> {ErrorsG(c[2], c[3])}
    [] c[1] = "errors" -> {Errors(c[2], c[3])}
    [] c[1] = "weighted" -> {Weighted(c[2])}
    [] c[1] = "allbut" -> {AllBut(c[2], c[3])}
    [] c[1] = "pairs" -> {Pairs(c[2], c[3])}
    [] c[1] = "hist" -> HistAll(c[2], HistOps(c[2])[c[3]], c[4])
    [] c[1] = "mix" -> {MixWalk(c[2])}
    [] c[1] = "walk" -> {Walk(c[2], c[3])}
    [] c[1] = "walkg" -> {WalkG(c[2])}
    [] c[1] = "ip" -> IPScripts(c[2], c[3], c[4])
    [] c[1] = "iptamper" -> IPTampers(c[2])
    [] c[1] = "ipown" -> {IPOwn(c[2], c[3])}
    [] c[1] = "ipsize" -> IF c[2] = c[3] THEN {} ELSE {IPSizes(c[2], c[3])}
    [] c[1] = "gx" -> {GenericScript(c[2], c[3])}
    [] c[1] = "badint" -> {<<SuG("p", c[2][1], c[2][2])>>}
    [] c[1] = "mixed" -> Mixed(c[2])
    [] c[1] = "code" -> {Codings(c[2])}
    [] c[1] = "codeg" -> {CodingsG, ReusedG}
    [] c[1] = "reused" -> {Reused(c[2])}
    [] c[1] = "forms" -> Forms
    [] c[1] = "vals" -> {Values(c[2], c[3], c[4])}
    [] c[1] = "valsg" -> {ValuesG(c[2])}
    [] c[1] = "shapes" -> {ShapesOf(c[2])}
    [] c[1] = "tape" -> {Tapes(c[2], c[3])}
    [] c[1] = "tapeg" -> {<<SuG("p", NLit(-7), NLit(1000)), Tape("a", "p", NLit(c[2]), R(8050 + c[2], QOrd), 0), Tape("b", "p", NLit(c[2]), R(8070 + c[2], QOrd), 0), PrG("c", "p", NLit(c[2]))>>}
    [] c[1] = "mut" -> {<<Su("p", c[2]), Pr("a", "p", R(8401, Two(c[2]))), Ve("a"), Mu1("a", c[3])>>}
    [] c[1] = "holes" -> {Holes(c[2])}
    [] c[1] = "mut2" -> {Mut2(c[2], c[3], g, IF Thorough THEN 40 ELSE 8) : g \in Structural}
    [] c[1] = "mutg" -> {<<SuG("p", NLit(0), NLit(10)), PrG("a", "p", NLit(4)), Ve("a"), Mu1("a", c[2])>>}
    [] c[1] = "fail" -> {FailProve(c[2], c[3])}
    [] c[1] = "failg" -> {FailGeneric(c[2])}
    [] c[1] = "meet" -> {MeetScript(c[2])}
    [] c[1] = "same" -> {SameScript(c[2])}
    [] c[1] = "par" -> {ParScript(c[2], c[3])}
    [] c[1] = "parg" -> {ParScriptG(c[2])}

Init == chunk \in Chunks /\ ops = <<>> /\ fin = FALSE
Next == ~ fin /\ chunk' = chunk /\ fin' = TRUE /\ \E s \in Scripts(chunk) : ops' = s
Out == ~ fin \/ Emit(ops)
=============================================================================
