-------------------------------- MODULE CcsGen --------------------------------
(***************************************************************************)
(* Sessions with ccs08 and bbsignatures for C13-C18 (and the second base   *)
(* of C28, set membership in C12).                                         *)
(***************************************************************************)
EXTENDS CcsSession, TraceKit
CONSTANT Part
VARIABLES chunk, ops, fin

R(tag, bound) == NRand(Seed, tag, bound)
RI(tag, n) == NInt(R(tag, NLit(n)))
TwoTo(k) == NPow(NLit(2), k)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
MaxI == NSub(TwoTo(63), NLit(1))
MinI == NNeg(TwoTo(63))
Lits(s) == [i \in DOMAIN s |-> NLit(s[i])]

(*------------------------------ operations -------------------------------*)
SS(d, s) == [op |-> "SetupSet", d |-> d, s |-> s]
SU(d, u, l) == [op |-> "SetupUL", d |-> d, u |-> u, l |-> l]
PP(d, P) == [op |-> "PutParams", d |-> d, P |-> P]
PS(d, p, x, r) == [op |-> "ProveSet", d |-> d, p |-> p, x |-> x, r |-> r]
PU(d, p, x, r) == [op |-> "ProveUL", d |-> d, p |-> p, x |-> x, r |-> r]
Prv(set, d, p, x, r) == IF set THEN PS(d, p, x, r) ELSE PU(d, p, x, r)
St(o) == o @@ [strict |-> 1]
Pu(d, pf, set) == [op |-> "Put", d |-> d, pf |-> pf, set |-> set]
Ve(a, p) == [op |-> "Verify", a |-> a, p |-> p]
Ta(d, a, f, i, how, k) == [op |-> "Tamper", d |-> d, a |-> a, f |-> f, i |-> i, how |-> how, k |-> k]
Fr(d, a, f, i, b, g, j) == [op |-> "Tamper", d |-> d, a |-> a, f |-> f, i |-> i, how |-> "from", b |-> b, g |-> g, j |-> j]
TaP(d, a, how, k) == [op |-> "TamperP", d |-> d, a |-> a, how |-> how, k |-> k]
RS(d, a, b) == [op |-> "RSetup", d |-> d, A |-> a, B |-> b]
RP(d, x, r) == [op |-> "RProve", d |-> d, x |-> x, r |-> r]
RV(d) == [op |-> "RVerify", d |-> d]
RM(d, p, a, b, A, B) == [op |-> "RMake", d |-> d, p |-> p, a |-> a, b |-> b, A |-> A, B |-> B]
Ha(d, a, i) == [op |-> "Half", d |-> d, a |-> a, i |-> i]
PO(d, a) == [op |-> "ParOf", d |-> d, a |-> a]
KG(d, src) == [op |-> "Keygen", d |-> d, src |-> src]
PK(d, x) == [op |-> "PutKey", d |-> d, x |-> x]
SG(d, key, m) == [op |-> "Sign", d |-> d, key |-> key, m |-> m]
PSg(d, s) == [op |-> "PutSig", d |-> d, s |-> s]
TS(d, a, how, k) == [op |-> "TamperS", d |-> d, a |-> a, how |-> how, k |-> k]
BV(a, key, m) == [op |-> "BVerify", a |-> a, key |-> key, m |-> m]
Par(p, xs, rs, vs) == [op |-> "Par", p |-> p, xs |-> xs, rs |-> rs, vs |-> vs]
RPar(d, xs, rs) == [op |-> "RPar", d |-> d, xs |-> xs, rs |-> rs]

\* commitment randomness
RandR(tag) == CASE RI(tag, 9) = 0 -> NLit(0) [] RI(tag, 9) = 1 -> NLit(1) [] RI(tag, 9) = 2 -> NSub(ROrd, NLit(1)) [] RI(tag, 9) = 3 -> NAdd(ROrd, R(tag + 1, ROrd))
                [] RI(tag, 9) = 4 -> NNeg(R(tag + 1, ROrd)) [] RI(tag, 9) = 5 -> R(tag + 1, TwoTo(300)) [] OTHER -> R(tag + 1, ROrd)

\* numbers that agree in part
Coll(x) == <<x, NAdd(x, TwoTo(64)), NAdd(x, TwoTo(32)), x, NNeg(x), NAdd(x, TwoTo(63)), NAdd(x, ROrd), NAdd(x, TwoTo(256)), NAdd(x, NLit(1)), x, NAdd(x, TwoTo(128)), NSub(x, TwoTo(32)), NLit(0), x>>
CollIn(x, low, top) == SelectSeq(Coll(x), LAMBDA y : NLe(low, y) /\ NLt(y, top))

(*------------------------------ C13: sets --------------------------------*)
SetOf(v) ==
  CASE v = 1 -> <<>> [] v = 2 -> Lits(<<0>>) [] v = 3 -> Lits(<<-1>>) [] v = 4 -> Lits(<<12, 42, 61, 71>>)
    [] v = 5 -> <<MinI, MaxI, NLit(0)>> [] v = 6 -> Lits(<<7, 7, -7, 7>>) [] v = 7 -> Lits(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>)
    [] v = 8 -> <<NSub(TwoTo(31), NLit(1)), TwoTo(31), NNeg(TwoTo(31)), TwoTo(32), NAdd(TwoTo(32), NLit(1)), NLit(1)>>
    [] v = 9 -> <<NSub(MaxI, NLit(1)), NAdd(MinI, NLit(1)), NLit(-2), NLit(2)>>
    [] v > 1000 /\ v % 2 = 0 -> [i \in 1..(v - 1000) |-> NSub(R(1100 + 20 * v + i, TwoTo(64)), TwoTo(63))]
    [] v > 1000 /\ v % 2 = 1 -> [i \in 1..(v - 1000) |-> NLit(IF i % 2 = 0 THEN i ELSE 0 - i)]
    [] OTHER -> [i \in 1..(2 + RI(1000 + v, 6)) |-> NSub(R(1100 + 20 * v + i, TwoTo(64)), TwoTo(63))]
Near(S) == LET ms == {S[i] : i \in DOMAIN S} IN
  {x \in UNION {{m, NAdd(m, NLit(1)), NSub(m, NLit(1)), NNeg(m)} : m \in ms} \cup {NLit(0), MinI, MaxI} : NLe(MinI, x) /\ NLe(x, MaxI)}
AsSeq(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o f(T \ {x}) IN f(S)
Names(S) == AsSeq({S[i] : i \in DOMAIN S})
SetScript(v, w) ==         \* a second setup, of the same set or another one
  LET S == SetOf(v) xs == AsSeq(Near(S)) IN
  <<SS("p", S), SS("p2", SetOf(w))>>
  \o Flat([i \in 1..Len(xs) |-> LET x == xs[i] IN
       <<PS("a", "p", x, RandR(1300 + 50 * v + i))>> \o (IF \E j \in DOMAIN S : S[j] = x THEN <<Ve("a", "p"), Ve("a", "p2"), Ve("a", "p")>> ELSE <<>>)])
\* large sets: a member at either end and in the middle, and numbers that are not in it
SetLarge(v) ==
  LET S == SetOf(v) n == Len(S) ms == <<S[1], S[n], S[n \div 2], NAdd(S[1], NLit(1000)), S[n - 1], S[n \div 4], S[(3 * n) \div 4]>> IN
  <<SS("p", S)>> \o Flat([i \in DOMAIN ms |-> <<PS("a", "p", ms[i], RandR(1390 + 10 * v + i))>> \o (IF \E j \in DOMAIN S : S[j] = ms[i] THEN <<Ve("a", "p")>> ELSE <<>>)])
SetIndep(v) ==             \* parameters and proofs made by somebody else
  LET P == MadeParams(Seed, 1400 + v, Names(SetOf(v)), NLit(1), 1, "set") IN
  <<PP("p", P)>> \o Flat([i \in 1..Len(P.ms) |->
      LET x == P.ms[i] r == RandR(1450 + 30 * v + i) IN
      <<PS("a", "p", x, r), Ve("a", "p"), Pu("b", HonestCcs(P, CProver(Seed, 1450 + 30 * v + i, P, x, r, <<x>>)), TRUE), Ve("b", "p")>>])

CollSet(j) ==
  LET x == IF j = 1 THEN NLit(5) ELSE R(1480 + j, TwoTo(40)) ys == CollIn(x, MinI, MaxI) r == R(1490 + j, ROrd) rs == Coll(r)
      S == <<x, NNeg(x), NAdd(x, TwoTo(32)), NLit(-1)>> IN
  <<Mode("reuse"), SS("p", S), SS("q", <<x, NLit(7)>>)>> \o Flat([i \in DOMAIN ys |-> <<PS("a", "p", ys[i], r)>> \o (IF i \in {1, 2, 4} THEN <<Ve("a", "p")>> ELSE <<>>) \o <<PS("b", "q", ys[i], r)>>])
  \o Flat([i \in DOMAIN rs |-> <<PS("a", "p", x, rs[i])>> \o (IF i \in {2, 5} THEN <<Ve("a", "p")>> ELSE <<>>)])

(*---------------------------- C14: digits --------------------------------*)
ULs == <<<<2, 1>>, <<2, 5>>, <<3, 3>>, <<10, 5>>, <<57, 2>>, <<4, 6>>, <<16, 3>>, <<100, 2>>, <<2, 12>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<7, 0>>, <<5, 4>>, <<57, 11>>, <<256, 1>>, <<3, 20>>>>
XsUL(u, l) ==
  LET top == NPow(NLit(u), l) k(i) == R(1500 + 100 * u + 10 * l + i, top) IN
  {NLit(0), NSub(top, NLit(1)), top, NLit(-1), k(1), NAdd(top, k(2)), NSub(k(3), top), NAdd(ROrd, k(4)), NSub(k(5), ROrd), R(1501 + 100 * u + l, ROrd), NDiv(top, NLit(2))}
  \cup (IF Thorough THEN {NLit(1), NLit(u), NLit(u - 1), NAdd(top, NLit(1)), NNeg(top), TwoTo(64), NAdd(TwoTo(64), k(6)), NNeg(TwoTo(64)), TwoTo(300), NNeg(TwoTo(300)),
         NMul(top, NLit(u)), NSub(ROrd, NLit(1)), ROrd, k(7), k(8), k(9), NSub(top, NLit(u))} ELSE {TwoTo(300)})
ULScript(v) ==
  LET u == ULs[v][1] l == ULs[v][2] xs == AsSeq(XsUL(u, l)) IN
  {<<SU("p", NLit(u), l), PU("a", "p", xs[i], RandR(1700 + 40 * v + i)), Ve("a", "p")>> : i \in DOMAIN xs}
\* many digits, and a large base
ULLarge(u, l) ==
  LET top == NPow(NLit(u), l) IN
  {<<SU("p", NLit(u), l), PU("a", "p", x, R(1790 + l, ROrd)), Ve("a", "p")>> : x \in (IF l > 60 THEN {NDiv(top, NLit(3)), top} ELSE {NSub(top, NLit(1)), top, NDiv(top, NLit(3)), NSub(top, NLit(u))})}
\* proofs must be rejected under other parameters
ULOther(v) ==
  LET u == ULs[v][1] l == ULs[v][2] top == NPow(NLit(u), l) IN
  <<SU("p", NLit(u), l), SU("q", NLit(u), l), SU("s", NLit(u + 1), l), SU("t", NLit(u), l + 1),
    PU("a", "p", NSub(top, NLit(1)), R(1800 + v, ROrd)), Ve("a", "p"), Ve("a", "q"), Ve("a", "s"), Ve("a", "t"),
    PU("b", "t", NSub(top, NLit(1)), R(1800 + v, ROrd)), Ve("b", "t"), Ve("b", "p"), TaP("h", "p", "add", NLit(1)), Ve("a", "h"), Ve("a", "p")>>
ULIndep(v) ==
  LET u == ULs[v][1] l == ULs[v][2] P == MadeParams(Seed, 1900 + v, Digits0(u), NLit(u), l, "ul") top == NPow(NLit(u), l)
      one(j) == LET x == R(1950 + 10 * v + j, top) r == RandR(2200 + 10 * v + j) IN
        <<PU("a", "p", x, r), Ve("a", "p"), Pu("b", HonestCcs(P, CProver(Seed, 2200 + 10 * v + j, P, x, r, DigitsOf(x, NLit(u), l))), FALSE), Ve("b", "p")>>
  IN  <<PP("p", P)>> \o one(1) \o one(2)

CollUL(j) ==
  LET u == IF j = 1 THEN 2 ELSE 57 l == IF j = 1 THEN 3 ELSE 3 top == NPow(NLit(u), l) x == R(2290 + j, top) xs == Coll(x) rs == Coll(R(2295 + j, ROrd)) IN
  <<Mode("reuse"), SU("p", NLit(u), l), SU("q", NLit(u + 1), l), SU("s", NLit(u), l - 1)>>
  \o Flat([i \in DOMAIN xs |-> <<PU("a", "p", xs[i], rs[1])>> \o (IF i \in {1, 4} THEN <<Ve("a", "p")>> ELSE <<>>)])
  \o Flat([i \in DOMAIN rs |-> <<PU("a", <<"q", "p", "s">>[1 + (i % 3)], IF i % 3 = 2 THEN NLit(0) ELSE x, rs[i])>> \o (IF i \in {2, 4, 6} THEN <<Ve("a", <<"q", "p", "s">>[1 + (i % 3)])>> ELSE <<>>)])
\* sizes that agree in part
CollULs == LET z == <<<<2, 3>>, <<258, 1>>, <<2, 1>>, <<3, 3>>, <<2, 3>>, <<257, 1>>, <<1, 1>>, <<3, 2>>, <<2, 2>>, <<2, 3>>>> IN
  Flat([i \in DOMAIN z |-> <<SU("p", NLit(z[i][1]), z[i][2]), PU("a", "p", NSub(NPow(NLit(z[i][1]), z[i][2]), NLit(1)), R(2299, ROrd)), Ve("a", "p"), PU("a", "p", NPow(NLit(z[i][1]), z[i][2]), NLit(1))>>])

(*--------------------------- C15: intervals ------------------------------*)
Ints == <<<<NLit(347184000), NLit(599644800)>>, <<NLit(0), NLit(100)>>, <<NLit(-10), NLit(10)>>, <<NLit(-500), NLit(-3)>>, <<NLit(5), NLit(6)>>, <<NLit(7), NLit(7)>>,
          <<NLit(0), NLit(57)>>, <<NLit(0), NLit(58)>>, <<NLit(-57), NLit(0)>>, <<NLit(-1), NLit(0)>>, <<NLit(2), NLit(59)>>, <<MinI, MaxI>>, <<NLit(0), MaxI>>, <<MinI, NLit(0)>>,
          <<MinI, NAdd(MinI, NLit(2))>>, <<NSub(MaxI, NLit(1)), MaxI>>, <<NLit(1000), NAdd(NLit(1000), NPow(NLit(57), 3))>>, <<NLit(1000), NAdd(NLit(1001), NPow(NLit(57), 3))>>,
          <<NNeg(TwoTo(40)), TwoTo(40)>>, <<NLit(0), NLit(2)>>, <<NLit(0), NLit(1)>>, <<NLit(-5), NLit(1)>>, <<NLit(1), NLit(1)>>>>
ULen(a, b) == IF NLe(NSub(b, a), NLit(57)) THEN 1 ELSE 2
XsR(v) ==
  LET a == Ints[v][1] b == Ints[v][2] d == NSub(b, a) IN
  {a, NSub(a, NLit(1)), b, NSub(b, NLit(1)), NDiv(NAdd(a, b), NLit(2))}
  \cup (IF Thorough THEN {NAdd(b, NLit(1)), NSub(a, d), NAdd(b, d), NAdd(a, ROrd), NSub(b, ROrd), TwoTo(70), NNeg(TwoTo(70)), NAdd(a, R(2400 + v, NAdd(d, NLit(1)))), NLit(0), TwoTo(300),
         NAdd(a, NPow(NLit(57), 11)), NSub(b, NPow(NLit(57), 11))}
        ELSE {NAdd(a, NPow(NLit(57), 1 + RI(2440 + v, 11))), NSub(b, NPow(NLit(57), 1 + RI(2460 + v, 11)))})
RScript(v, x) == <<RS("o", Ints[v][1], Ints[v][2]), RP("o", x, RandR(2500 + v)), RV("o"), RV("o")>>
BadInts == {<<NLit(1900), NLit(1899)>>, <<NLit(1), NLit(0)>>, <<NLit(0), NLit(-1)>>, <<MaxI, MinI>>, <<NLit(5), NLit(-5)>>, <<NLit(0), MinI>>, <<NLit(2), NLit(1)>>, <<MaxI, NLit(0)>>}
\* histories of one or two objects
Hist(h) ==
  LET r(i) == R(2600 + 10 * h + i, ROrd) n(i) == NLit(i) IN
  CASE h = 1 -> <<RV("o"), RP("o", n(5), r(1)), RV("o"), RS("o", n(0), n(50)), RV("o"), RP("o", n(5), r(1)), RV("o"), RP("o", n(50), r(2)), RV("o"), RP("o", n(49), r(3)), RV("o")>>
    [] h = 2 -> <<RS("o", n(0), n(50)), RP("o", n(5), r(1)), RV("o"), RS("o", n(9), n(4)), RV("o"), RP("o", n(5), r(1)), RV("o")>>
    [] h = 3 -> <<RS("o", n(9), n(4)), RP("o", n(5), r(1)), RV("o"), RS("o", n(4), n(9)), RV("o"), RP("o", n(5), r(1)), RV("o"), RP("o", n(3), r(1)), RV("o")>>
    [] h = 4 -> <<RS("o", n(0), n(50)), RP("o", n(5), r(1)), RS("o", n(0), n(50)), RV("o"), RP("o", n(6), r(1)), RV("o"), RV("o")>>
    [] h = 5 -> <<RS("o", n(0), n(50)), RP("o", n(5), r(1)), RS("q", n(0), n(50)), RP("q", n(5), r(1)), Ha("a1", "o", 1), Ha("a2", "o", 2), Ha("b1", "q", 1), Ha("b2", "q", 2), PO("p", "o"), PO("pq", "q"),
                  Ve("a1", "p"), Ve("a2", "p"), Ve("b1", "p"), RM("m", "p", "a1", "a2", n(0), n(50)), RV("m"), RM("m", "p", "b1", "b2", n(0), n(50)), RV("m"), RM("m", "pq", "b1", "b2", n(0), n(50)), RV("m"), RV("o"), RV("q")>>
    [] h = 6 -> <<RS("o", n(-20), n(50)), RP("o", n(5), r(1)), Ha("a1", "o", 1), Ha("a2", "o", 2), PO("p", "o"), RP("o", n(6), r(1)), Ha("b1", "o", 1), Ha("b2", "o", 2), RP("o", n(5), r(2)), Ha("c1", "o", 1), Ha("c2", "o", 2),
                  RM("m", "p", "a1", "b2", n(-20), n(50)), RV("m"), RM("m", "p", "b1", "a2", n(-20), n(50)), RV("m"), RM("m", "p", "a1", "c2", n(-20), n(50)), RV("m"), RM("m", "p", "c1", "a2", n(-20), n(50)), RV("m"),
                  RM("m", "p", "a2", "a1", n(-20), n(50)), RV("m"), RM("m", "p", "a1", "a1", n(-20), n(50)), RV("m"), RM("m", "p", "a2", "a2", n(-20), n(50)), RV("m"), RM("m", "p", "b1", "b2", n(-20), n(50)), RV("m"),
                  RM("m", "p", "a1", "a2", n(-19), n(50)), RV("m"), RM("m", "p", "a1", "a2", n(-20), n(51)), RV("m"), RM("m", "p", "a1", "a2", n(-20), n(49)), RV("m"), RM("m", "p", "a1", "a2", n(-21), n(49)), RV("m"),
                  RM("m", "p", "a1", "a2", n(50), n(-20)), RV("m"), RM("m", "p", "a1", "a2", n(-20), n(50)), RV("m")>>
CollRange(j) ==
  LET v == <<2, 1, 19, 9>>[j] a == Ints[v][1] b == Ints[v][2] x == NDiv(NAdd(a, b), NLit(2)) xs == Coll(x) r == R(2695 + j, ROrd) IN
  <<Mode("reuse"), RS("o", a, b)>> \o Flat([i \in DOMAIN xs |-> <<RP("o", xs[i], r)>> \o (IF i \in {1, 2, 8} THEN <<RV("o")>> ELSE <<>>)])
  \o <<RS("q", NSub(a, NLit(1)), NSub(b, NLit(1))), RP("q", NSub(b, NLit(1)), r), RV("q"), RP("q", NSub(a, NLit(1)), r), RV("q"), RS("q", NNeg(b), NNeg(a)), RP("q", x, r), RV("q"), RP("q", NNeg(x), NAdd(r, NLit(1))), RV("q"),
       RP("o", x, r), RV("o"), RV("q")>>
\* two halves by somebody else with parameters of a small base: x in neither or only one half, or different secrets
RIndep(h) ==
  LET u == NLit(3) l == 3 a == NLit(-4) b == NLit(16) top == NPow(u, l)
      P == MadeParams(Seed, 2700 + h, Digits0(3), u, l, "ul")
      r == R(2750 + h, ROrd)
      h1(x, rr, t) == HonestCcs(P, CProver(Seed, 2800 + 10 * h + t, P, x, rr, DigitsOf(x, u, l)))
      lo(x) == NAdd(NSub(x, b), top)
      hi(x) == NSub(x, a)
      put(x1, x2, rr) == <<Pu("f1", h1(lo(x1), r, 1), FALSE), Pu("f2", h1(hi(x2), rr, 2), FALSE), RM("m", "p", "f1", "f2", a, b), RV("m")>>
  IN  <<PP("p", P)>> \o put(NLit(3), NLit(3), r) \o put(NLit(-4), NLit(-4), r) \o put(NLit(15), NLit(15), r)
      \o put(NLit(-5), NLit(-4), r) \o put(NLit(16), NLit(16), r) \o put(NLit(-6), NLit(10), r) \o put(NLit(5), NLit(6), r) \o put(NLit(5), NLit(5), NAdd(r, NLit(1)))
      \o put(NLit(5), NLit(5), NAdd(r, ROrd)) \o put(NLit(-5), NLit(20), r)

(*--------------------------- C16: forgeries ------------------------------*)
G2Hows == <<<<"neg", 0>>, <<"add", 1>>, <<"add", -1>>, <<"mul", 2>>, <<"set", 1>>, <<"set", 7>>, <<"inf", 0>>, <<"nil", 0>>>>
NumHows == <<<<"neg", 0>>, <<"add", 1>>, <<"add", -1>>, <<"mul", 2>>, <<"set", 0>>, <<"set", 1>>, <<"nil", 0>>>>
Two(set, u, l) ==          \* two accepted proofs of different members, one of the same as the first
  LET r(i) == R(3000 + i, ROrd) top == NPow(NLit(u), l) IN
  (IF set THEN <<SS("p", Lits(<<3, -8, 20>>)), PS("a", "p", NLit(3), r(1)), PS("b", "p", NLit(-8), r(2)), PS("c", "p", NLit(3), r(1))>>
   ELSE <<SU("p", NLit(u), l), PU("a", "p", NDiv(top, NLit(3)), r(1)), PU("b", "p", NSub(top, NLit(1)), r(2)), PU("c", "p", NDiv(top, NLit(3)), r(1))>>)
  \o <<Ve("a", "p"), Ve("b", "p"), Ve("c", "p")>>
Places(l) == {<<"D", 1>>, <<"C", 1>>, <<"c", 1>>, <<"zr", 1>>} \cup {<<f, i>> : f \in ListFields, i \in 1..l}
TamperOne(set, u, l, f, i) ==
  LET hows == IF f \in {"V", "D", "C", "a"} THEN G2Hows ELSE NumHows
      big == R(3100 + i, ROrd)
      t(how, k) == <<Ta("e", "a", f, i, how, k), Ve("e", "p")>>
  IN  Two(set, u, l) \o Flat([h \in DOMAIN hows |-> t(hows[h][1], NLit(hows[h][2]))]) \o t("add", big)
      \o (IF f \in {"V", "D", "C", "a"} THEN <<>> ELSE t("raw", ROrd) \o t("raw", NNeg(ROrd)) \o t("raw", NMul(ROrd, NLit(3))) \o t("set", big))
      \o <<Fr("e", "a", f, i, "b", f, i), Ve("e", "p"), Fr("e", "a", f, i, "c", f, i), Ve("e", "p"), Ve("a", "p")>>
\* the same objects, accepted, changed, refused, changed back and accepted again
InPlace(set, u, l) ==
  LET ss == AsSeq(Places(l)) IN
  <<Mode("reuse")>> \o Two(set, u, l)
  \o Flat([i \in DOMAIN ss |-> <<Ta("a", "a", ss[i][1], ss[i][2], "add", NLit(1)), Ve("a", "p"), Ta("a", "a", ss[i][1], ss[i][2], "add", NLit(-1)), Ve("a", "p")>>])
  \o <<Prv(set, "a", "p", IF set THEN NLit(3) ELSE NLit(0), R(3090, ROrd)), Ve("a", "p"), Ve("b", "p"), TaP("p", "p", "add", NLit(1)), Ve("a", "p"), Ve("b", "p"), TaP("p", "p", "add", NLit(-1)), Ve("a", "p"), Ve("b", "p")>>
Same(f, g) == (f \in {"V", "D", "C"} /\ g \in {"V", "D", "C"}) \/ (f = "a" /\ g = "a") \/ (f \in {"c", "zr", "zsig", "zv"} /\ g \in {"c", "zr", "zsig", "zv"})
Exchange(set, u, l, s) ==
  LET others == {o \in Places(l) : o # s /\ Same(s[1], o[1])} IN
  Two(set, u, l) \o Flat([k \in 1..Cardinality(others) |-> LET o == AsSeq(others)[k] IN
     <<Fr("e", "a", s[1], s[2], "a", o[1], o[2]), Ve("e", "p"), Fr("e", "a", s[1], s[2], "b", o[1], o[2]), Ve("e", "p")>>])
\* whole digits exchanged, within a proof and between proofs
Digit(d, a, i, b, j) == <<Fr(d, a, "V", i, b, "V", j), Fr(d, d, "a", i, b, "a", j), Fr(d, d, "zsig", i, b, "zsig", j), Fr(d, d, "zv", i, b, "zv", j)>>
Shapes(u, l) ==
  Two(FALSE, u, l) \o Digit("e", "a", 1, "b", 1) \o <<Ve("e", "p")>> \o Digit("e", "a", 1, "c", 1) \o <<Ve("e", "p")>>
  \o Digit("e", "a", 1, "a", l) \o Digit("e", "e", l, "a", 1) \o <<Ve("e", "p")>>
  \o Flat([k \in 1..4 |-> LET f == <<"V", "a", "zsig", "zv">>[k] IN
       <<Ta("e", "a", f, l, "drop", NLit(0)), Ve("e", "p"), Ta("e", "a", f, 1, "drop", NLit(0)), Ve("e", "p"), Ta("e", "a", f, l, "dup", NLit(0)), Ve("e", "p"),
         Ta("e", "a", f, 1, "clear", NLit(0)), Ve("e", "p")>>])
  \o <<Ta("e", "a", "V", l, "drop", NLit(0)), Ta("e", "e", "a", l, "drop", NLit(0)), Ta("e", "e", "zsig", l, "drop", NLit(0)), Ta("e", "e", "zv", l, "drop", NLit(0)), Ve("e", "p"),
       Ta("e", "a", "V", l, "dup", NLit(0)), Ta("e", "e", "a", l, "dup", NLit(0)), Ta("e", "e", "zsig", l, "dup", NLit(0)), Ta("e", "e", "zv", l, "dup", NLit(0)), Ve("e", "p"),
       Ta("e", "a", "V", 1, "clear", NLit(0)), Ta("e", "e", "a", 1, "clear", NLit(0)), Ta("e", "e", "zsig", 1, "clear", NLit(0)), Ta("e", "e", "zv", 1, "clear", NLit(0)), Ve("e", "p"), Ve("a", "p")>>
\* two missing parts at once
Holes(set, u, l, j) ==
  LET ps == AsSeq(Places(l))
      hole(d, a, s, h) == IF set \/ h = "nil" \/ s[1] \notin ListFields THEN Ta(d, a, s[1], s[2], "nil", NLit(0)) ELSE Ta(d, a, s[1], IF h = "clear" THEN 1 ELSE s[2], h, NLit(0))
      hows == <<"nil", "clear", "drop", "dup">> IN
  Two(set, u, l) \o Flat([i \in DOMAIN ps |-> IF i <= j THEN <<>> ELSE
      LET s == ps[j] t == ps[i] tag == 3900 + 100 * j + i IN
      IF s[1] = t[1] THEN <<Ta("e", "a", s[1], s[2], "nil", NLit(0)), Ta("e", "e", t[1], t[2], "nil", NLit(0)), Ve("e", "p")>>
      ELSE <<hole("e", "a", s, hows[1 + RI(tag, 4)]), hole("e", "e", t, hows[1 + RI(tag + 50, 4)]), Ve("e", "p")>>]) \o <<Ve("a", "p")>>
\* matching changes of two components
Matched(set, u, l) ==
  Two(set, u, l) \o
  <<Ta("e", "a", "zsig", 1, "add", NLit(1)), Ta("e", "e", "D", 1, "add", NLit(1)), Ve("e", "p"),
    Ta("e", "a", "zv", 1, "add", NLit(1)), Ta("e", "e", "a", 1, "add", NLit(1)), Ve("e", "p"),
    Ta("e", "a", "V", 1, "neg", NLit(0)), Ta("e", "e", "a", 1, "neg", NLit(0)), Ta("e", "e", "zv", 1, "neg", NLit(0)), Ve("e", "p"),
    Ta("e", "a", "V", 1, "mul", NLit(2)), Ta("e", "e", "a", 1, "mul", NLit(2)), Ta("e", "e", "zv", 1, "mul", NLit(2)), Ve("e", "p"),
    Ta("e", "a", "D", 1, "neg", NLit(0)), Ta("e", "e", "C", 1, "neg", NLit(0)), Ta("e", "e", "zr", 1, "neg", NLit(0)), Ta("e", "e", "zsig", 1, "neg", NLit(0)), Ve("e", "p"),
    Ta("e", "a", "c", 1, "set", NLit(0)), Ta("e", "e", "D", 1, "inf", NLit(0)), Ta("e", "e", "zr", 1, "set", NLit(0)), Ta("e", "e", "zsig", 1, "set", NLit(0)),
    Ta("e", "e", "zv", 1, "set", NLit(0)), Ta("e", "e", "a", 1, "inf", NLit(0)), Ve("e", "p"),
    Ta("e", "a", "V", 1, "inf", NLit(0)), Ta("e", "e", "a", 1, "set", NLit(5)), Ta("e", "e", "zv", 1, "set", NLit(5)), Ve("e", "p")>>
\* errors of two components, with both signs and with the weights of neighbouring digits, that cancel for a verifier who adds up (or
\* multiplies) what he should compare separately
Errors(set, u, l, g) ==
  LET ps == AsSeq(Places(l)) s == ps[g]
      two(t, k, m) == <<Ta("e", "a", s[1], s[2], "add", NLit(k)), Ta("e", "e", t[1], t[2], "add", NLit(m)), Ve("e", "p")>> IN
  Two(set, u, l) \o Flat([h \in DOMAIN ps |-> IF h <= g THEN <<>> ELSE
      two(ps[h], 1, 1) \o two(ps[h], 1, -1) \o (IF s[1] = ps[h][1] THEN two(ps[h], u, -1) \o two(ps[h], -1, u) ELSE <<>>)]) \o <<Ve("a", "p")>>
MoreTampers(set, u, l, j) ==
  Two(set, u, l) \o Flat([i \in 1..6 |->
     LET tag == 3200 + 100 * j + 10 * i ps == AsSeq(Places(l)) s == ps[1 + RI(tag, Len(ps))] t == ps[1 + RI(tag + 1, Len(ps))]
         how(f, g) == <<"neg", "add", "mul", "set">>[1 + RI(tag + g, 4)]
         k(g) == NAdd(NLit(2), R(tag + g, IF RI(tag + g + 1, 2) = 0 THEN NLit(4) ELSE ROrd))
     IN  <<Ta("e", "a", s[1], s[2], how(s[1], 2), k(4)), Ta("e", "e", t[1], t[2], how(t[1], 3), k(6)), Ve("e", "p")>>])
\* the deviating provers: a number whose digits are not digits (or, for sets, not a member)
ForgeP(set, u, l, t) == IF set THEN MadeParams(Seed, t, Lits(<<3, -8, 20>>), NLit(1), 1, "set") ELSE MadeParams(Seed, t, Digits0(u), NLit(u), l, "ul")
Forged(set, u, l, lie, j, i) ==
  LET tag == 3500 + 100 * u + 10 * l + i
      P == ForgeP(set, u, l, tag)
      top == NPow(NLit(u), l)
      x == CASE i = 1 -> IF set THEN NLit(4) ELSE top [] i = 2 -> NSub(ROrd, NLit(1)) [] OTHER -> R(tag, ROrd)
      d == IF set THEN <<NLit(3)>> ELSE DigitsOf(R(tag + 1, top), NLit(u), l)
      k == CProver(Seed, tag, P, x, R(tag + 2, ROrd), d)
      pf == CcsBuild(P, k, lie, j)
  IN  IF ~ Assert(CcsEffective(P, pf, lie, j) /\ ~ Accepts(P, pf), <<"not the intended forgery", set, u, l, lie, j, i>>) THEN {}
      ELSE {<<PP("p", P), Pu("a", pf, set), Ve("a", "p"), Ve("a", "p")>>}
ForgeKinds == {<<TRUE, 1, 1>>, <<FALSE, 2, 1>>, <<FALSE, 2, 3>>, <<FALSE, 5, 2>>} \cup (IF Thorough THEN {<<FALSE, 3, 4>>, <<FALSE, 10, 3>>, <<FALSE, 57, 1>>} ELSE {})

(*------------------------------- C17: BB ---------------------------------*)
Msgs(x) == <<NLit(0), NLit(1), NLit(-1), NLit(2), ROrd, NSub(ROrd, NLit(1)), NAdd(ROrd, NLit(1)), NNeg(x), NSub(ROrd, x), NAdd(NSub(ROrd, x), NLit(1)), x, TwoTo(64), TwoTo(256), NNeg(TwoTo(300)), TwoTo(1000),
             R(4001, ROrd), R(4002, ROrd), R(4003, TwoTo(255)), NNeg(R(4004, ROrd)), NSub(NNeg(x), ROrd)>>
BBKey(i) == CASE i = 1 -> NLit(1) [] i = 2 -> NSub(ROrd, NLit(1)) [] i = 3 -> NLit(0) [] i = 4 -> NLit(2) [] OTHER -> R(4100 + i, ROrd)
BBScript(i, j) ==
  LET x == BBKey(i) m == Msgs(x)[j] able == Signable(x, m) other == Msgs(x)[1 + (j % Len(Msgs(x)))] IN
  <<PK("k", x), KG("g", "ok"), SG("s", "k", m), SG("sg", "g", m), BV("sg", "g", m), BV("sg", "k", m)>> \o
  (IF ~ able THEN <<>> ELSE
   <<BV("s", "k", m), BV("s", "g", m), BV("s", "k", NAdd(m, NLit(1))), BV("s", "k", NSub(m, NLit(1))), BV("s", "k", NNeg(m)), BV("s", "k", other), BV("s", "k", NAdd(m, ROrd)), BV("s", "k", NSub(m, ROrd)),
     BV("s", "k", NNeg(x)), TS("t", "s", "neg", NLit(0)), BV("t", "k", m), TS("t", "s", "add", NLit(1)), BV("t", "k", m), TS("t", "s", "mul", NLit(2)), BV("t", "k", m), TS("t", "s", "inf", NLit(0)), BV("t", "k", m),
     BV("t", "k", NNeg(x)), TS("t", "s", "set", NLit(1)), BV("t", "k", m), TS("t", "s", "set", R(4200 + i, ROrd)), BV("t", "k", m),
     PSg("u", Sig(x, m)), BV("u", "k", m), BV("s", "k", m)>>)
BBHist(j) ==
  LET x == BBKey(4 + j) m == R(4300 + j, IF j % 2 = 0 THEN ROrd ELSE TwoTo(60)) ms == SelectSeq(Coll(m), LAMBDA y : Signable(x, y)) xs == SelectSeq(Coll(x), LAMBDA y : Signable(y, m) /\ NLe(NLit(0), y) /\ NLt(y, ROrd)) IN
  <<Mode("reuse"), PK("k", x)>> \o Flat([i \in DOMAIN ms |-> <<SG("s", "k", ms[i]), BV("s", "k", ms[i]), BV("s", "k", m)>>])
  \o <<SG("s", "k", m), BV("s", "k", m)>> \o Flat([i \in DOMAIN ms |-> <<BV("s", "k", ms[i])>>])
  \o <<TS("s", "s", "add", NLit(1)), BV("s", "k", m), TS("s", "s", "add", NLit(-1)), BV("s", "k", m), TS("s", "s", "neg", NLit(0)), BV("s", "k", m), TS("s", "s", "neg", NLit(0)), BV("s", "k", m)>>
  \o Flat([i \in DOMAIN xs |-> <<PK("k", xs[i]), BV("s", "k", m), SG("t", "k", m), BV("t", "k", m), BV("s", "k", m)>>])
  \o <<PK("k", NSub(ROrd, x)), BV("s", "k", m), SG("t", "k", m), BV("t", "k", m), PK("k", x), BV("s", "k", m), BV("t", "k", m)>>
Keys == <<KG("a", "ok"), KG("b", "ok"), KG("c", "zero"), KG("d", "fail"), KG("e", "ok"), SG("s", "a", NLit(5)), BV("s", "a", NLit(5)), BV("s", "b", NLit(5)), SG("t", "e", NLit(5)), BV("t", "e", NLit(5)), BV("t", "a", NLit(5)),
          SG("z", "c", NLit(3)), BV("z", "c", NLit(3)), BV("z", "a", NLit(3)), SG("zz", "c", NLit(0))>>

(*---------------------------- C18: secrets -------------------------------*)
SecretSet(j) ==
  LET S == SetOf(j) x == S[1 + RI(5000 + j, Len(S))] r == RandR(5010 + j) IN
  <<SS("p", S), St(PS("a", "p", x, r)), St(PS("b", "p", x, r)), SS("q", S), St(PS("c", "q", x, r)), St(PS("d", "p", x, NLit(0)))>>
SecretUL(v, j) ==
  LET u == ULs[v][1] l == ULs[v][2] top == NPow(NLit(u), l) x == IF j = 1 THEN NLit(0) ELSE IF j = 2 THEN NSub(top, NLit(1)) ELSE R(5100 + 10 * v + j, top) r == RandR(5200 + 10 * v + j) IN
  <<SU("p", NLit(u), l), St(PU("a", "p", x, r)), St(PU("b", "p", x, r)), SU("q", NLit(u), l), St(PU("c", "q", x, r))>>
SecretR(v) ==
  LET a == Ints[v][1] b == Ints[v][2] x == NAdd(a, R(5300 + v, NSub(b, a))) r == R(5310 + v, ROrd) IN
  <<RS("o", a, b), St(RP("o", x, r)), Ha("a1", "o", 1), Ha("a2", "o", 2), St(RP("o", x, r)), RS("o", a, b), St(RP("o", x, r))>>

(*------------------------------ C28, C12 ---------------------------------*)
Bases == <<SS("p", SetOf(4)), SS("q", SetOf(4)), SU("s", NLit(3), 2), SU("t", NLit(3), 2), RS("o", NLit(0), NLit(9)), RS("o2", NLit(0), NLit(9)), SS("e", SetOf(1)), SU("z", NLit(2), 0),
           PS("a", "p", NLit(12), NLit(0)), PS("b", "p", NLit(12), NLit(5)), PU("c", "s", NLit(8), R(6001, ROrd))>>
\* the same proof with its group elements in another internal representation
Again(d, a, fs) == [i \in 1..Len(fs) |-> Ta(IF i = Len(fs) THEN d ELSE d \o ToString(i), IF i = 1 THEN a ELSE d \o ToString(i - 1), fs[i], 1, "mul", NLit(1))]
ParSet(j) ==
  <<SS("p", SetOf(4)), SS("q", SetOf(4)), PS("a", "p", NLit(12), R(6100 + j, ROrd)), PS("b", "q", NLit(42), NLit(3)), Ta("c", "a", "zr", 1, "add", NLit(1))>> \o Again("d", "a", <<"D", "V", "C", "a">>) \o
  <<Par("p", Lits(<<12, 42, 13>>), [i \in 1..3 |-> R(6600 + 10 * j + i, ROrd)], <<"d", "d", "d", "d">>),
    Par("p", Lits(<<12, 42, 12, 61, 13, 71, 12, 71>>), [i \in 1..8 |-> R(6200 + 10 * j + (i % 4), ROrd)], <<"a", "b", "a", "c", "a", "b", "c", "a">>), Ve("a", "p"), Ve("b", "p"), Ve("b", "q")>>
ParUL(j) ==
  <<SU("p", NLit(4), 2), SU("q", NLit(4), 2), PU("a", "p", NLit(9), R(6300 + j, ROrd)), PU("b", "q", NLit(9), NLit(3)), Ta("c", "a", "C", 1, "add", NLit(1))>> \o Again("d", "a", <<"D", "V", "C", "a">>) \o
  <<Par("p", Lits(<<3>>), <<R(6700 + j, ROrd)>>, <<"d", "d", "d">>),
    Par("p", Lits(<<0, 15, 16, 3, 7, -1>>), [i \in 1..6 |-> R(6400 + 10 * j + (i % 4), ROrd)], <<"a", "b", "a", "c", "a">>), Ve("a", "p"), Ve("b", "p")>>
ParR(j) == <<RS("o", NLit(-3), NLit(60)), RPar("o", Lits(<<-3, 59, 60, 5, 5, -4>>), [i \in 1..6 |-> R(6500 + 10 * j + (i % 3), ROrd)]), RP("o", NLit(4), NLit(3)), RV("o")>>

(*-------------------------------- C30 ------------------------------------*)
MeetScript(j) ==
  LET x(i) == R(8900 + 20 * j + i, NLit(64)) r(i) == R(9000 + 20 * j + i, ROrd) m == R(9100 + j, ROrd)
      tail == <<Ve("a", "p"), Ve("c", "q"), BV("s", "k", m), RV("o"), RP("o", NLit(4), NLit(3)), RV("o")>> IN
  <<SS("p", SetOf(4)), SU("q", NLit(4), 3), PS("a", "p", NLit(12), r(1)), PU("c", "q", x(1), r(2)), KG("k", ""), SG("s", "k", m), RS("o", NLit(-3), NLit(60)), RP("o", NLit(7), r(3)),
    Ta("b", "c", "zr", 1, "add", NLit(1))>>
  \o (CASE j % 5 = 1 -> <<Together(<<SS("x", SetOf(4)), SS("y", SetOf(2)), SU("z", NLit(3), 2), SU("w", NLit(4), 2), RS("v", NLit(0), NLit(9)), RS("u", NLit(-5), NLit(5)), KG("i", ""), KG("j", "")>>)>>
        [] j % 5 = 2 -> <<Together(<<SG("t", "k", NLit(5)), SG("u", "k", m), BV("s", "k", m), BV("s", "k", m), BV("s", "k", NAdd(m, NLit(1))), KG("i", ""), SG("v", "k", NNeg(m)), SG("w", "k", NLit(0))>>)>>
        [] j % 5 = 3 -> <<Together(<<PS("d", "p", NLit(12), r(4)), PS("e", "p", NLit(13), r(4)), PU("f", "q", x(2), r(5)), PU("g", "q", NLit(64), r(6)), Ve("a", "p"), Ve("c", "q"), Ve("b", "q"), Ve("c", "q")>>)>>
        [] j % 5 = 4 -> <<Together(<<RV("o"), RV("o"), RV("o"), RS("v", NLit(0), NLit(9)), Ve("a", "p"), PS("d", "p", NLit(42), r(4)), RV("none"), RS("w", NLit(9), NLit(0))>>)>>
        [] OTHER -> <<Together(<<SU("z", NLit(3), 2), PU("f", "q", x(2), r(5)), Ve("c", "q"), SG("u", "k", m), BV("s", "k", m), RV("o"), SS("x", SetOf(6)), KG("i", ""), PS("d", "p", NLit(61), r(4))>>)>>)
  \o tail

\* eight calls of the same function: they use what the function has, if anything, for its own at the same moments
SameScript(j) ==
  LET x(i) == R(9200 + 20 * j + i, NLit(16)) r(i) == R(9300 + 20 * j + i, ROrd) m(i) == R(9400 + 20 * j + i, ROrd)
      All(Call(_)) == <<Together([i \in 1..8 |-> Call(i)])>>
      nm(i) == "n" \o ToString(i) IN
  <<SS("p", SetOf(4)), SU("q", NLit(4), 2), PS("a", "p", NLit(12), r(1)), PU("c", "q", x(1), r(2)), PU("d", "q", x(2), r(3)), KG("k", ""), SG("s", "k", m(1)), SG("t", "k", m(2)),
    Ta("b", "c", "zr", 1, "add", NLit(1)), Ta("e", "a", "zv", 1, "add", NLit(1)), RS("o", NLit(-3), NLit(1)), RP("o", NLit(0), r(4))>>
  \o (CASE j % 10 = 1 -> All(LAMBDA i : Ve(<<"c", "d", "b">>[1 + (i % 3)], "q"))
        [] j % 10 = 2 -> All(LAMBDA i : Ve(IF i % 3 = 0 THEN "e" ELSE "a", "p"))
        [] j % 10 = 3 -> All(LAMBDA i : PU(nm(i), "q", x(i), r(i + 4)))
        [] j % 10 = 4 -> All(LAMBDA i : PS(nm(i), "p", Lits(<<12, 42, 61, 71, 13, 12, 42, 61>>)[i], r(i + 4)))
        [] j % 10 = 5 -> All(LAMBDA i : SG(nm(i), "k", m(i + 2)))
        [] j % 10 = 6 -> All(LAMBDA i : BV(IF i % 2 = 0 THEN "s" ELSE "t", "k", m(1 + ((i \div 2) % 2))))
        [] j % 10 = 7 -> All(LAMBDA i : RV("o"))
        [] j % 10 = 8 -> All(LAMBDA i : KG(nm(i), ""))
        [] j % 10 = 9 -> All(LAMBDA i : IF i % 2 = 0 THEN SS(nm(i), SetOf(i)) ELSE SU(nm(i), NLit(3), i))
        [] OTHER -> All(LAMBDA i : RS(nm(i), NLit(-i), NLit(3 * i))))
  \o <<Ve("a", "p"), Ve("c", "q"), BV("s", "k", m(1)), RV("o")>>

(*-------------------------------- C29 ------------------------------------*)
FailCases == 1..16
FailScript(v) ==
  LET r == R(8700 + v, ROrd)
      then(set) == <<Ve("z", "p"), Prv(set, "q2", "p", NLit(1), NLit(9)), Ve("q2", "p")>>
      two == <<"ok", "ok">>
      with(set, st, x) == <<st, Prv(set, "z", "p", NLit(1), NLit(3)), Ve("z", "p"), FailAt(Prv(set, "q", "p", x, r), then(set), two, two, 1), Prv(set, "q", "p", x, r), Ve("q", "p")>>
      ul == <<<<2, 1>>, <<3, 2>>, <<2, 5>>, <<10, 3>>, <<4, 4>>>>[1 + (v % 5)]
      redo == <<RV("o"), RP("o", NLit(3), NLit(5)), RV("o"), RS("o", NLit(0), NLit(9)), RP("o", NLit(3), NLit(5)), RV("o")>>
  IN  CASE v \in 1..2 -> with(TRUE, SS("p", Lits(<<1, 12, 42>>)), IF v = 1 THEN NLit(1) ELSE NLit(42))
        [] v \in 3..7 -> with(FALSE, SU("p", NLit(ul[1]), ul[2]), NSub(NPow(NLit(ul[1]), NLit(ul[2])), NLit(1)))
        [] v = 8 -> <<FailAt(SS("p", SetOf(4)), <<SS("p", SetOf(4)), PS("q", "p", NLit(12), r), Ve("q", "p")>>, <<"ok">>, <<"ok">>, 1), SS("p", SetOf(4)), PS("q", "p", NLit(12), r), Ve("q", "p")>>
        [] v = 9 -> <<FailAt(SU("p", NLit(4), 2), <<SU("p", NLit(4), 2), PU("q", "p", NLit(12), r), Ve("q", "p")>>, <<"ok">>, <<"ok">>, 1), SU("p", NLit(4), 2), PU("q", "p", NLit(12), r), Ve("q", "p")>>
        [] v = 15 -> <<FailAt(SS("p", <<>>), <<SS("p", <<>>)>>, <<>>, <<>>, 1), SS("p", <<>>)>>
        [] v = 16 -> <<FailAt(SU("p", NLit(1), 1), <<SU("p", NLit(2), 0)>>, <<>>, <<>>, 1), SU("p", NLit(1), 1)>>
        [] v = 10 -> <<FailAt(KG("k", ""), <<KG("k", ""), SG("s", "k", NLit(5)), BV("s", "k", NLit(5))>>, <<"ok">>, <<"ok">>, 1), KG("k", ""), SG("s", "k", NLit(5)), BV("s", "k", NLit(5))>>
        [] v = 11 -> <<FailAt(RS("o", NLit(-3), NLit(60)), redo, <<"no", "ok", "ok">>, <<"no", "err", "no", "ok">>, 1), RS("o", NLit(-3), NLit(60)), RP("o", NLit(7), r), RV("o")>>
        [] v \in {12, 13} -> <<RS("o", NLit(-3), NLit(60)), FailAt(RP("o", IF v = 12 THEN NLit(-3) ELSE NLit(17), r), <<RV("o"), RP("o", NLit(59), NLit(5)), RV("o")>>, two, <<"no", "ok">>, 1), RP("o", NLit(7), r), RV("o")>>
        [] v = 14 -> <<RS("o", NLit(5), NLit(8)), FailAt(RP("o", NLit(7), NLit(0)), <<RV("o"), RP("o", NLit(5), NLit(5)), RV("o")>>, two, <<"no", "ok">>, 1), RP("o", NLit(7), r), RV("o")>>

(*------------------------------------------------------------------------*)
Chunks ==
  CASE Part = "C13" -> {<<"setlarge", 1000 + n>> : n \in {16, 31, 32, 33, 64, 65, 128, 129, 256, 301}} \cup {<<"set", v, w>> : v \in 1..(IF Thorough THEN 24 ELSE 12), w \in {4, 5, 6}} \cup {<<"collset", j>> : j \in 1..(IF Thorough THEN 8 ELSE 3)} \cup {<<"setindep", v>> : v \in 1..(IF Thorough THEN 24 ELSE 12)}
                       \cup {<<"forged", <<TRUE, 1, 1>>, lie, 1, i>> : lie \in CcsLies, i \in 1..3}
    [] Part = "C14" -> {<<"ullarge", 3, 16>>, <<"ullarge", 2, 32>>, <<"ullarge", 2, 64>>, <<"ullarge", 2, 130>>, <<"ullarge", 64, 3>>, <<"ullarge", 256, 2>>, <<"ullarge", 300, 2>>, <<"ullarge", 1000, 1>>} \cup {<<"ul", v>> : v \in 1..Len(ULs)} \cup {<<"other", v>> : v \in 1..9} \cup {<<"ulindep", v>> : v \in 1..14} \cup {<<"collul", j>> : j \in 1..2} \cup {<<"colluls">>}
                       \cup {<<"forged", k, lie, 1, i>> : k \in {<<FALSE, 2, 3>>, <<FALSE, 5, 2>>}, lie \in CcsLies, i \in 1..(IF Thorough THEN 5 ELSE 1)}
    [] Part = "C15" -> UNION {{<<"range", v, x>> : x \in XsR(v)} : v \in 1..Len(Ints)} \cup {<<"bad", i>> : i \in BadInts} \cup {<<"hist", h>> : h \in 1..6} \cup {<<"collrange", j>> : j \in 1..(IF Thorough THEN 4 ELSE 2)}
                       \cup {<<"rindep", h>> : h \in 1..(IF Thorough THEN 6 ELSE 2)}
    [] Part = "C16" -> {<<"one", k, s>> : k \in {<<TRUE, 1, 1>>}, s \in Places(1)} \cup {<<"exch", k, s>> : k \in {<<TRUE, 1, 1>>}, s \in Places(1)}
                       \cup UNION {{<<"one", k, s>> : s \in Places(k[3])} \cup {<<"exch", k, s>> : s \in Places(k[3])} : k \in {<<FALSE, 3, 2>>} \cup (IF Thorough THEN {<<FALSE, 2, 1>>, <<FALSE, 10, 4>>} ELSE {})}
                       \cup {<<"inplace", k>> : k \in {<<TRUE, 1, 1>>, <<FALSE, 3, 2>>, <<FALSE, 5, 1>>}} \cup {<<"shape", u, l>> : u \in {2, 4}, l \in {1, 2, 3}} \cup {<<"matched", k>> : k \in {<<TRUE, 1, 1>>, <<FALSE, 2, 1>>, <<FALSE, 3, 2>>}}
                       \cup UNION {{<<"holes", k, j>> : j \in 1..(Cardinality(Places(k[3])) - 1)} : k \in {<<TRUE, 1, 1>>, <<FALSE, 3, 2>>} \cup (IF Thorough THEN {<<FALSE, 2, 3>>, <<FALSE, 2, 1>>} ELSE {})}
                       \cup UNION {{<<"errors", k, g>> : g \in 1..(Cardinality(Places(k[3])) - 1)} : k \in {<<TRUE, 1, 1>>, <<FALSE, 3, 2>>} \cup (IF Thorough THEN {<<FALSE, 2, 3>>} ELSE {})}
                       \cup {<<"more", k, j>> : k \in {<<TRUE, 1, 1>>, <<FALSE, 3, 2>>}, j \in 1..(IF Thorough THEN 40 ELSE 4)}
                       \cup UNION {{<<"forged", k, lie, j, i>> : lie \in CcsLies, j \in 1..k[3], i \in 1..(IF Thorough THEN 6 ELSE 2)} : k \in ForgeKinds}
    [] Part = "C17" -> {<<"bb", i, j>> : i \in 1..(IF Thorough THEN 20 ELSE 5), j \in 1..20} \cup {<<"bbhist", j>> : j \in 1..(IF Thorough THEN 12 ELSE 4)} \cup {<<"keys">>}
    [] Part = "C18" -> {<<"secset", j>> : j \in 2..(IF Thorough THEN 24 ELSE 10)} \cup {<<"secul", v, j>> : v \in 1..(IF Thorough THEN 14 ELSE 9), j \in 1..(IF Thorough THEN 6 ELSE 3)}
                       \cup {<<"secr", v>> : v \in IF Thorough THEN {1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 14, 17, 18, 19, 20} ELSE {2, 3, 5, 8}}
    [] Part = "C28" -> {<<"bases">>}
    [] Part = "C29" -> {<<"fail", v>> : v \in FailCases}
    [] Part = "C30" -> {<<"meet", j>> : j \in 1..(IF Thorough THEN 60 ELSE 5)} \cup {<<"same", j>> : j \in 1..(IF Thorough THEN 60 ELSE 10)}
    [] Part = "C12" -> {<<"parset", j>> : j \in 1..(IF Thorough THEN 20 ELSE 3)} \cup {<<"parul", j>> : j \in 1..(IF Thorough THEN 20 ELSE 2)} \cup {<<"parr", j>> : j \in 1..(IF Thorough THEN 8 ELSE 1)}

Scripts(c) ==
  CASE c[1] = "set" -> {SetScript(c[2], c[3])}
    [] c[1] = "setlarge" -> {SetLarge(c[2])}
    [] c[1] = "ullarge" -> ULLarge(c[2], c[3])
    [] c[1] = "setindep" -> {SetIndep(c[2])}
    [] c[1] = "collset" -> {CollSet(c[2])}
    [] c[1] = "collul" -> {CollUL(c[2])}
    [] c[1] = "colluls" -> {CollULs}
    [] c[1] = "collrange" -> {CollRange(c[2])}
    [] c[1] = "inplace" -> {InPlace(c[2][1], c[2][2], c[2][3])}
    [] c[1] = "bbhist" -> {BBHist(c[2])}
    [] c[1] = "ul" -> ULScript(c[2])
    [] c[1] = "other" -> {ULOther(c[2])}
    [] c[1] = "ulindep" -> {ULIndep(c[2])}
    [] c[1] = "range" -> {RScript(c[2], c[3])}
    [] c[1] = "bad" -> {<<RS("o", c[2][1], c[2][2]), RP("o", c[2][1], NLit(7)), RV("o")>>}
    [] c[1] = "hist" -> {Hist(c[2])}
    [] c[1] = "rindep" -> {RIndep(c[2])}
    [] c[1] = "one" -> {TamperOne(c[2][1], c[2][2], c[2][3], c[3][1], c[3][2])}
    [] c[1] = "exch" -> {Exchange(c[2][1], c[2][2], c[2][3], c[3])}
    [] c[1] = "shape" -> {Shapes(c[2], c[3])}
    [] c[1] = "holes" -> {Holes(c[2][1], c[2][2], c[2][3], c[3])}
    [] c[1] = "matched" -> {Matched(c[2][1], c[2][2], c[2][3])}
    [] c[1] = "errors" -> {Errors(c[2][1], c[2][2], c[2][3], c[3])}
    [] c[1] = "more" -> {MoreTampers(c[2][1], c[2][2], c[2][3], c[3])}
    [] c[1] = "forged" -> Forged(c[2][1], c[2][2], c[2][3], c[3], c[4], c[5])
    [] c[1] = "bb" -> {BBScript(c[2], c[3])}
    [] c[1] = "keys" -> {Keys}
    [] c[1] = "secset" -> {SecretSet(c[2])}
    [] c[1] = "secul" -> {SecretUL(c[2], c[3])}
    [] c[1] = "secr" -> {SecretR(c[2])}
    [] c[1] = "bases" -> {Bases}
    [] c[1] = "fail" -> {FailScript(c[2])}
    [] c[1] = "meet" -> {MeetScript(c[2])}
    [] c[1] = "same" -> {SameScript(c[2])}
    [] c[1] = "parset" -> {ParSet(c[2])}
    [] c[1] = "parul" -> {ParUL(c[2])}
    [] c[1] = "parr" -> {ParR(c[2])}

Init == chunk \in Chunks /\ ops = <<>> /\ fin = FALSE
Next == ~ fin /\ chunk' = chunk /\ fin' = TRUE /\ \E s \in Scripts(chunk) : ops' = s
Out == ~ fin \/ Emit(ops)
=============================================================================
