------------------------------ MODULE GroupsGen ------------------------------
(***************************************************************************)
(* Behaviours of the register machines for C19-C23 and C28: every          *)
(* operation with every aliasing of receiver and operands on all           *)
(* combinations of special elements in different representations, and long *)
(* pseudo-random walks.  A behaviour is complete, and written out, when    *)
(* todo is empty and its walk has reached its length.                      *)
(***************************************************************************)
EXTENDS Groups, Points, Hashes, TraceKit
CONSTANT Part
VARIABLES chunk, ops, rg, fin

R(tag, bound) == NRand(Seed, tag, bound)
RI(tag, n) == NInt(R(tag, NLit(n)))                                 \* native, 0..n-1
L(s) == [i \in 1..Len(s) |-> NLit(s[i])]
TwoTo(k) == NPow(NLit(2), k)
Sgn(x) == {x, NNeg(x)}
N(b) == IF b THEN 1 ELSE 0

(*------------------------------- elements --------------------------------*)
\* special exponents of the group t; the last ones are random
Vals(t) == <<NLit(0), NLit(1), NLit(2), NSub(ord(t), NLit(1)), R(11, ord(t)), R(12, ord(t))>>
NVals == 6
Scalars(t) ==
  UNION {Sgn(x) : x \in {NLit(0), NLit(1), NLit(2), NLit(3), NLit(7), NSub(ord(t), NLit(1)), ord(t), NAdd(ord(t), NLit(1)), NMul(ord(t), NLit(2)),
                         NAdd(NMul(ord(t), NLit(3)), NLit(5)), TwoTo(63), TwoTo(64), TwoTo(255), TwoTo(256), NSub(TwoTo(256), NLit(1)),
                         R(21, ord(t)), R(22, ord(t)), R(23, TwoTo(512)), R(24, TwoTo(128)), R(25, TwoTo(1500))}}

\* ways to put the element with exponent x in register d (tmp is another register that may be overwritten)
NPrep == 6
Prep(t, d, tmp, x, how) ==
  LET base(r, k) == [t |-> t, op |-> "Base", d |-> r, k |-> k] IN
  CASE how = 1 -> <<base(d, x)>>
    [] how = 2 /\ t # "P" -> <<base(d, x), [t |-> t, op |-> "Copy", d |-> d, a |-> d]>>
    [] how = 3 -> IF NEq(x, NLit(2)) THEN <<base(d, NLit(-1)), base(tmp, NLit(3)), [t |-> t, op |-> "Add", d |-> d, a |-> tmp, b |-> d]>>
                  ELSE <<base(d, NSub(x, NLit(1))), base(tmp, NLit(1)), [t |-> t, op |-> "Add", d |-> d, a |-> d, b |-> tmp]>>
    [] how = 4 -> <<base(d, NNeg(x)), [t |-> t, op |-> "Neg", d |-> d, a |-> d]>>
    [] how = 5 -> <<base(tmp, NLit(5)), [t |-> t, op |-> "Mul", d |-> d, a |-> tmp, k |-> NMod(NMul(x, NInv(NLit(5), ord(t))), ord(t))]>>
    [] how = 6 /\ t # "GT" -> (IF Zero(x) THEN (IF t = "G1" THEN <<base(d, NLit(7)), [t |-> t, op |-> "SetZero", d |-> d]>> ELSE <<[t |-> t, op |-> "SetInf", d |-> d]>>) ELSE <<base(d, NAdd(x, ord(t)))>>)
    [] OTHER -> <<base(d, x)>>

\* looking at the result in every way there is
Look(t) ==
  LET see(o) == [i \in 1..NReg |-> [t |-> t, op |-> o, a |-> i]] IN
  (CASE t = "P" -> see("IsZero") \o see("OnCurve")
     [] t = "GT" -> see("IsOne") \o see("Marshal")
     [] t = "G1" -> see("Coords") \o see("IsZero") \o see("Marshal") \o see("Coords")
     [] OTHER -> see("IsZero") \o see("Marshal")) \o <<[t |-> t, op |-> "Same"]>>

\* receiver, first and second operand
Alias2 == {<<1, 2, 3>>, <<2, 2, 3>>, <<3, 2, 3>>, <<1, 2, 2>>, <<2, 2, 2>>}
Alias1 == {<<1, 2>>, <<2, 2>>}
Ops2(t) == IF t = "P" THEN {"Add", "Multiply"} ELSE {"Add"}
Ops1(t) == CASE t = "P" -> {"Neg", "Double"} [] t = "GT" -> {"Neg", "Invert", "Copy"} [] OTHER -> {"Neg", "Copy"}
OpsK(t) == IF t = "GT" THEN {"Mul", "Exp"} ELSE {"Mul"}

\* what the receiver holds before: nothing, the identity, or something else
Before(t, d, w) == CASE w = 0 -> <<>>
                     [] w = 1 -> IF t = "GT" THEN <<[t |-> t, op |-> "Base", d |-> d, k |-> NLit(0)]>> ELSE IF t = "G1" THEN <<[t |-> t, op |-> "SetZero", d |-> d]>> ELSE <<[t |-> t, op |-> "SetInf", d |-> d]>>
                     [] w = 2 -> <<[t |-> t, op |-> "Base", d |-> d, k |-> NLit(9)]>>

Seeds == IF Thorough THEN 0..5 ELSE 0..0      \* different representations of the operands
How(h, salt) == 1 + RI(900 + 37 * h + salt, NPrep)

Script2(t, o, va, vb, al, w, h) ==
  LET s == va * 100 + vb * 10 + w + 1000 * al[1] IN
  Prep(t, 2, 1, Vals(t)[va], How(h, 7 * s)) \o (IF al[3] = 3 THEN Prep(t, 3, 1, Vals(t)[vb], How(h, 7 * s + 1)) ELSE <<>>)
  \o (IF al[1] = 1 THEN Before(t, 1, w) ELSE <<>>)
  \o <<[t |-> t, op |-> o, d |-> al[1], a |-> al[2], b |-> al[3]]>> \o Look(t)
Scripts2(t, o, va) ==
  {Script2(t, o, va, vb, al, w, h) : vb \in 1..NVals, al \in {x \in Alias2 : x[3] = 3}, w \in 0..2, h \in Seeds}
  \cup {Script2(t, o, va, va, al, w, h) : al \in {x \in Alias2 : x[3] = 2}, w \in 0..2, h \in Seeds}
Script1(t, o, va, al, w, h) ==
  Prep(t, 2, 1, Vals(t)[va], h) \o (IF al[1] = 1 THEN Before(t, 1, w) ELSE <<>>)
  \o <<[t |-> t, op |-> o, d |-> al[1], a |-> al[2]]>> \o Look(t)
Scripts1(t, o, va) == {Script1(t, o, va, al, w, h) : al \in Alias1, w \in 0..2, h \in 1..NPrep}
ScriptK(t, o, va, al, k, w) ==
  Prep(t, 2, 1, Vals(t)[va], 1 + RI(va * 31 + w + 7 * al[1], NPrep)) \o (IF al[1] = 1 THEN Before(t, 1, w) ELSE <<>>)
  \o <<[t |-> t, op |-> o, d |-> al[1], a |-> al[2], k |-> k]>> \o Look(t)
ScriptsK(t, o, va) == {ScriptK(t, o, va, al, k, w) : al \in Alias1, k \in Scalars(t), w \in {0, 2}}
ScriptsB(t) == {Before(t, 1, w) \o <<[t |-> t, op |-> "Base", d |-> 1, k |-> k], [t |-> t, op |-> "Base", d |-> 2, k |-> k]>>
                \o <<[t |-> t, op |-> "Base", d |-> 3, k |-> NLit(3)]>> \o Look(t) : k \in Scalars(t), w \in 0..2}
ScriptsR(t) == IF t \notin {"G1", "G2"} THEN {} ELSE
  {<<[t |-> t, op |-> "Random", d |-> 1], [t |-> t, op |-> "Random", d |-> 2], [t |-> t, op |-> "Random", d |-> 1], [t |-> t, op |-> "Copy", d |-> 3, a |-> 1]>> \o Look(t)}

GroupChunks(t) ==
  {<<"2", t, o, v>> : o \in Ops2(t), v \in 1..NVals} \cup {<<"1", t, o, v>> : o \in Ops1(t), v \in 1..NVals}
  \cup {<<"k", t, o, v>> : o \in OpsK(t), v \in 1..NVals} \cup {<<"b", t>>}

(*------------------------------ random walks -----------------------------*)
Depth == IF Thorough THEN 40 ELSE 20
WalkOps(t) ==
  CASE t = "P" -> <<"Add", "Add", "Multiply", "Mul", "Neg", "Double", "Base", "SetInf", "IsZero", "OnCurve", "Same">>
    [] t = "GT" -> <<"Add", "Add", "Mul", "Exp", "Neg", "Invert", "Base", "Copy", "IsOne", "Same", "Marshal">>
    [] t = "G1" -> <<"Add", "Add", "Mul", "Neg", "Base", "Copy", "IsZero", "Same", "Marshal", "SetInf", "SetZero", "Coords", "Random">>
    [] OTHER -> <<"Add", "Add", "Mul", "Neg", "Base", "Copy", "IsZero", "Same", "Marshal", "SetInf", "Random">>
WalkScalar(tag, t) ==
  LET k == RI(tag, 8) IN
  CASE k = 0 -> NLit(0) [] k = 1 -> ord(t) [] k = 2 -> NLit(-1) [] k = 3 -> NLit(2) [] k = 4 -> NNeg(R(tag + 1, ord(t)))
    [] k = 5 -> R(tag + 2, TwoTo(300)) [] OTHER -> R(tag + 3, ord(t))
\* the step-th operation of walk i in one of the banks ts
WalkOp(i, step, ts) ==
  LET tag == 10000000 + 100000 * i + 100 * step
      t == ts[1 + RI(tag, Len(ts))]
      d == 1 + RI(tag + 1, NReg) a == 1 + RI(tag + 2, NReg) b == 1 + RI(tag + 3, NReg)
      os == WalkOps(t)
      o == os[1 + RI(tag + 4, Len(os))]
      full == IF Len(ts) > 1 /\ RI(tag + 5, 3) = 0
              THEN (IF RI(tag + 6, 2) = 0 THEN [t |-> "GT", op |-> "Pair", d |-> d, a |-> a, b |-> b]
                    ELSE [t |-> "PC", op |-> "PairingCheck", l |-> [j \in 1..RI(tag + 7, 5) |-> <<1 + RI(tag + 8 + j, NReg), 1 + RI(tag + 20 + j, NReg)>>]])
              ELSE CASE o = "Same" -> [t |-> t, op |-> o]
                     [] o \in {"IsZero", "IsOne", "OnCurve", "Marshal", "Coords"} -> [t |-> t, op |-> o, a |-> a]
                     [] o = "Base" -> [t |-> t, op |-> o, d |-> d, k |-> WalkScalar(tag + 30, t)]
                     [] o \in {"SetInf", "SetZero", "Random"} -> [t |-> t, op |-> o, d |-> d]
                     [] o \in {"Neg", "Invert", "Double", "Copy"} -> [t |-> t, op |-> o, d |-> d, a |-> a]
                     [] o \in {"Mul", "Exp"} -> [t |-> t, op |-> o, d |-> d, a |-> a, k |-> WalkScalar(tag + 30, t)]
                     [] OTHER -> [t |-> t, op |-> o, d |-> d, a |-> a, b |-> b]
  IN  IF Enabled(rg, full) THEN full
      ELSE [t |-> t, op |-> "Base", d |-> a, k |-> WalkScalar(tag + 40, t)]
NWalks == IF Thorough THEN 300 ELSE 30

(*------------------------------- C21 -------------------------------------*)
PairPrep(va, ha, vb, hb) ==
  Prep("G1", 1, 3, Vals("G1")[va], ha) \o Prep("G2", 1, 3, Vals("G2")[vb], hb)
  \o <<[t |-> "GT", op |-> "Pair", d |-> 1, a |-> 1, b |-> 1], [t |-> "GT", op |-> "IsOne", a |-> 1], [t |-> "GT", op |-> "Marshal", a |-> 1],
       [t |-> "GT", op |-> "Base", d |-> 2, k |-> NMul(Vals("G1")[va], Vals("G2")[vb])], [t |-> "GT", op |-> "Same"]>>
PairScripts(va) == {PairPrep(va, How(h, 3 * va + vb), vb, How(h, 5 * va + 11 * vb)) : vb \in 1..NVals, h \in 0..(IF Thorough THEN 7 ELSE 2)}
\* lists whose product is the identity, and the same lists with one entry changed
PC(l) == [t |-> "PC", op |-> "PairingCheck", l |-> l]
B1(d, k) == [t |-> "G1", op |-> "Base", d |-> d, k |-> k]
B2(d, k) == [t |-> "G2", op |-> "Base", d |-> d, k |-> k]
Conv(d, c, h) == (IF h % 2 = 1 THEN <<[t |-> "G1", op |-> "Copy", d |-> d, a |-> d]>> ELSE <<>>)
                 \o (IF c % 2 = 1 THEN <<[t |-> "G2", op |-> "Copy", d |-> d, a |-> d]>> ELSE <<>>)
CheckScript(i) ==
  LET tag == 40000000 + 1000 * i
      x == R(tag, ROrd) y == R(tag + 1, ROrd) z == R(tag + 2, ROrd) u == R(tag + 3, ROrd)
      off == RI(tag + 4, 3) - 1
      pair3 == NNeg(NMul(NAdd(NMul(x, y), NMul(z, u)), NInv(NLit(7), ROrd)))
      c == RI(tag + 5, 64)
      three == <<B1(1, x), B2(1, y), B1(2, z), B2(2, u), B1(3, NMod(NAdd(pair3, NLit(off)), ROrd)), B2(3, NLit(7))>>
  IN  three \o Conv(1, c, c \div 2) \o Conv(2, c \div 4, c \div 8) \o Conv(3, c \div 16, c \div 32)
      \o <<PC(<<<<1, 1>>, <<2, 2>>, <<3, 3>>>>), PC(<<<<3, 3>>, <<1, 1>>, <<2, 2>>>>), PC(<<<<1, 1>>, <<2, 2>>>>), PC(<<<<1, 1>>>>), PC(<<<<1, 1>>, <<1, 1>>>>),
           [t |-> "G1", op |-> "SetInf", d |-> 2], PC(<<<<2, 2>>>>), PC(<<<<1, 1>>, <<2, 2>>>>), PC(<<<<2, 1>>, <<2, 3>>, <<2, 2>>>>),
           [t |-> "G2", op |-> "SetInf", d |-> 3], PC(<<<<1, 3>>>>), PC(<<<<2, 3>>, <<2, 3>>>>), PC(<<<<1, 3>>, <<2, 3>>, <<1, 1>>>>)>>
ZeroScript(i) ==   \* x*G1 with y*G2 and its inverse in one of three places; identity entries in between
  LET tag == 50000000 + 1000 * i
      x == R(tag, ROrd) y == R(tag + 1, ROrd) c == RI(tag + 5, 64)
      k == NMod(NMul(x, y), ROrd) IN
  <<B1(1, x), B2(1, y), B1(2, NNeg(x)), B2(2, NNeg(y)), B1(3, NLit(0)), B2(3, NLit(0))>>
  \o Conv(1, c, c \div 2) \o Conv(2, c \div 4, c \div 8) \o Conv(3, c \div 16, c \div 32)
  \o <<PC(<<>>), PC(<<<<1, 1>>, <<2, 1>>>>), PC(<<<<1, 1>>, <<1, 2>>>>), PC(<<<<1, 1>>, <<2, 2>>>>), PC(<<<<3, 1>>>>), PC(<<<<3, 3>>, <<1, 1>>, <<1, 2>>>>),
       PC(<<<<1, 1>>, <<3, 3>>, <<2, 1>>>>), PC(<<<<1, 1>>, <<3, 3>>>>), PC(<<<<3, 3>>, <<3, 1>>, <<1, 3>>>>), PC(<<<<1, 3>>, <<1, 1>>>>),
       [t |-> "G1", op |-> "Neg", d |-> 3, a |-> 1], PC(<<<<1, 1>>, <<3, 1>>>>), PC(<<<<1, 1>>, <<3, 1>>, <<3, 1>>>>),
       B1(1, NLit(1)), B2(1, NLit(1)), B1(2, k), B2(2, NNeg(NInv(IF Zero(k) THEN NLit(1) ELSE k, ROrd))), PC(<<<<1, 1>>, <<2, 2>>>>)>>

\* long lists: the pairs cancel but for the n-th one
LongScript(n) ==
  LET x == R(55000000 + n, ROrd) y == R(55000001 + n, ROrd) z == R(55000002 + n, ROrd)
      l(k) == [i \in 1..k |-> IF i % 2 = 1 THEN <<1, 1>> ELSE <<2, 1>>] off(k, p) == [l(k) EXCEPT ![p] = <<3, 1>>] IN
  <<B1(1, x), B2(1, y), B1(2, NNeg(x)), B1(3, z), B2(2, NNeg(y)), B2(3, z)>>
  \o <<PC(l(n)), PC(off(n, n)), PC(off(n, n - 1)), PC(off(n, 1)), PC(l(n - 1)), PC(Append(l(n), <<3, 3>>)), PC([i \in 1..n |-> IF i % 2 = 1 THEN <<3, 1>> ELSE <<3, 2>>])>>

(*------------------------------- C22 -------------------------------------*)
\* the same element computed in three ways
CanonScript(t, v, h1, h2) ==
  Prep(t, 1, 3, Vals(t)[v], h1) \o Prep(t, 2, 3, Vals(t)[v], h2) \o <<[t |-> t, op |-> "Same"], [t |-> t, op |-> "Marshal", a |-> 1], [t |-> t, op |-> "Marshal", a |-> 2]>>
  \o <<[t |-> t, op |-> "Copy", d |-> 3, a |-> 1], [t |-> t, op |-> "Add", d |-> 3, a |-> 3, b |-> 2], [t |-> t, op |-> "Same"],
       [t |-> t, op |-> "Copy", d |-> 1, a |-> 1], [t |-> t, op |-> "Copy", d |-> 2, a |-> 3], [t |-> t, op |-> "Same"], [t |-> t, op |-> "Marshal", a |-> 2]>>
CanonScripts(t, v) == {CanonScript(t, v, h1, h2) : h1 \in 1..NPrep, h2 \in 1..NPrep}

\* coordinates with leading zero bytes
ShortScript(t, k) ==
  LET m == NSub(k, NLit(1)) IN
  <<[t |-> t, op |-> "Base", d |-> 1, k |-> k], [t |-> t, op |-> "Marshal", a |-> 1], [t |-> t, op |-> "Copy", d |-> 2, a |-> 1], [t |-> t, op |-> "Base", d |-> 3, k |-> m],
    [t |-> t, op |-> "Base", d |-> 1, k |-> NLit(1)], [t |-> t, op |-> "Add", d |-> 3, a |-> 3, b |-> 1], [t |-> t, op |-> "Same"], [t |-> t, op |-> "Marshal", a |-> 3],
    [t |-> t, op |-> "Neg", d |-> 1, a |-> 2], [t |-> t, op |-> "Marshal", a |-> 1], [t |-> t, op |-> "Same"]>>
Words(t) == CASE t = "G1" -> 2 [] t = "G2" -> 4 [] t = "GT" -> 12
EncOf(t, k) == CASE t = "G1" -> G1Enc(k) [] t = "G2" -> G2Enc(k) [] t = "GT" -> GTEnc(k)
DOp(t, h, d) == [t |-> "D", op |-> t, h |-> h, d |-> d]
\* i-th word replaced by another value of the same residue or by something else
WordVals(t, h, i) ==
  LET w == HexGet(h, i) IN
  {x \in {NAdd(w, BnP), NAdd(NAdd(w, BnP), BnP), BnP, NSub(BnP, NLit(1)), NMod(NNeg(w), BnP), NMod(NAdd(w, NLit(1)), BnP), NLit(0), NLit(1), NSub(TwoTo(256), NLit(1)),
          NAdd(BnP, NLit(1))} : NLt(x, TwoTo(256))}
ZeroHex(t) == HexCut("", 32 * Words(t))
DecodeStrings(t, v) ==
  LET h == EncOf(t, Vals(t)[v]) n == 32 * Words(t) IN
  {h} \cup {HexCut(h, m) : m \in {0, 1, 31, 32, n - 32, n - 1, n + 1, n + 32, 2 * n}}
  \cup UNION {{HexSet(h, i, x) : x \in WordVals(t, h, i)} : i \in 0..(Words(t) - 1)}
\* on the curve but perhaps not in the group
LiftStrings(t, i) ==
  LET a == R(60000000 + i, BnP) b == R(70000000 + i, BnP) IN
  {h \in (CASE t = "G1" -> {G1Lift(a), G1Lift(NLit(i))}
            [] t = "G2" -> {TwistLift(a, b), TwistLift(NLit(i), NLit(0)), TwistLift(NLit(0), NLit(i))}
            [] t = "GT" -> {GTScale(GTEnc(a), NMod(NAdd(b, NLit(2)), BnP)), GTScale(GTEnc(a), NSub(BnP, NLit(1))), GTScale(GTEnc(NLit(i)), NLit(2)),
                            GTScale(GTEnc(NLit(0)), b)}) : h # "none"}
Decodes(t, c) == {<<DOp(t, h, d)>> : h \in c \ {ZeroHex(t)}, d \in {0, 3}}

ShortScripts(t, i) ==
  LET ks == Shorts(t, R(65000000 + i, ord(t)), NLit(IF Thorough THEN 4 ELSE 2)) IN
  {ShortScript(t, ks[j]) : j \in DOMAIN ks} \cup {<<DOp(t, EncOf(t, ks[j]), 0)>> : j \in DOMAIN ks}

(*------------------------------- C23 -------------------------------------*)
Prefix == <<66, 117, 108, 108, 101, 116, 112, 114, 111, 111, 102, 115, 68, 111, 101, 115, 78, 111, 116, 78, 101, 101, 100, 84, 114, 117, 115, 116, 101, 100, 83, 101, 116, 117, 112>>
HashStr(i) == LET n == RI(80000000 + i, 40) kind == RI(81000000 + i, 3) IN
  [j \in 1..n |-> CASE kind = 0 -> 32 + RI(82000000 + 100 * i + j, 95) [] kind = 1 -> RI(82000000 + 100 * i + j, 256)
                    [] OTHER -> RI(82000000 + 100 * i + j, 55295)]
Hs(s) == {<<[t |-> "H", op |-> o, s |-> s]>> : o \in {"MapToGroup", "HashToInt"}}
HashScripts(c) ==
  CASE c[2] = "one" -> UNION {Hs(<<x>>) \cup Hs(<<72, x>>) : x \in {c[3]} }
    [] c[2] = "pre" -> Hs(Prefix \o <<72, 103 + (c[3] % 2), c[3]>>) \cup Hs(SubSeq(Prefix, 1, c[3] % 36))
    [] c[2] = "long" -> Hs([j \in 1..(8 * c[3] + 1) |-> 97 + (j % 26)]) \cup Hs([j \in 1..(8 * c[3]) |-> 0])
    [] c[2] = "rand" -> Hs(HashStr(c[3]))
\* strings for which the first ten candidates and more are not x coordinates of points
Unlucky(s, k) == \A i \in 0..(k - 1) : PLiftY(NMod(HashCps(DecCps(i) \o s), FieldP)) = "none"
TryScripts(j) == UNION {Hs(DecCps(n)) : n \in {m \in (1000 * j)..(1000 * j + 999) : Unlucky(DecCps(m), 10)}}
COp(x, y) == [t |-> "C", op |-> "OnCurve", x |-> x, y |-> y]
CurvePts(x) ==
  LET y == PLiftY(x) ys == IF y = "none" THEN {} ELSE {y, NMod(NNeg(y), FieldP), NMod(NAdd(y, NLit(1)), FieldP), NMod(NSub(y, NLit(1)), FieldP)} IN
  {<<COp(x, z)>> : z \in ys \cup {NLit(0), NLit(1), x, "nil"}} \cup {<<COp("nil", x)>>} \cup {<<[t |-> "C", op |-> "F", x |-> x]>>}
CurveXs(i) == {R(90000000 + i, FieldP), NLit(i), NSub(FieldP, NLit(i + 1))}

(*------------------------------- C28 -------------------------------------*)
ComVals(t) == {NLit(0), NLit(1), NLit(-1), NLit(5), ord(t), NAdd(ord(t), NLit(5)), NNeg(ord(t)), NSub(ord(t), NLit(1)), TwoTo(32), TwoTo(64), NNeg(TwoTo(63)), TwoTo(300),
               R(31, ord(t)), NNeg(R(32, ord(t))), NSub(NMul(R(33, ord(t)), NLit(3)), ord(t))}
\* second bases: of known exponent, so that g^x h^r = g^(x + r y) can be computed; includes g, its inverse and the identity
ComBases(t) == {NLit(1), NLit(2), NLit(-1), R(34, ord(t)), NLit(0)}
ComScripts(t, x) == {<<[t |-> "K", op |-> IF t = "P" THEN "CommitG1" ELSE "Commit", x |-> x, r |-> r, y |-> y]>> :
                      r \in ComVals(t), y \in ComBases(t)}

(*------- histories: arguments that agree in part, one after the other, in the same or in other objects -------*)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
Coll(x, q) == <<x, NAdd(x, TwoTo(64)), NNeg(x), NAdd(x, TwoTo(32)), x, NAdd(x, TwoTo(63)), NSub(q, x), NAdd(x, NLit(1)), NAdd(x, q), NAdd(x, TwoTo(256)), NAdd(x, TwoTo(128)), NLit(0), x>>
HistX(tag, q) == IF RI(tag, 3) = 0 THEN R(tag + 1, TwoTo(60)) ELSE R(tag + 1, q)
HistNums(t, j) == <<Mode(IF j % 2 = 1 THEN "reuse" ELSE "keep")>>
  \o Flat(LET x == HistX(4000000 + 1000 * j, ord(t)) d(i) == 1 + 2 * (i % 2)
              F(i) == LET k == Coll(x, ord(t))[i]
                          k2 == Coll(NLit(2), ord(t))[i] IN
                      CASE (j \div 2) % 2 = 0 -> <<[t |-> t, op |-> "Base", d |-> d(i), k |-> k], [t |-> t, op |-> "Base", d |-> 2, k |-> k2]>>
                        [] OTHER -> <<[t |-> t, op |-> IF t = "GT" /\ i % 3 = 0 THEN "Exp" ELSE "Mul", d |-> d(i), a |-> 2, k |-> IF j % 4 = 2 /\ i > 6 THEN k2 ELSE k]>> IN
          <<<<[t |-> t, op |-> "Base", d |-> 2, k |-> R(4000500 + 1000 * j, ord(t))]>>>> \o [i \in 1..13 |-> F(i)])
  \o Look(t)
\* the operands' values change in their objects between the operations
HistPts(t, j) ==
  LET x == R(4000600 + 1000 * j, ord(t)) y == R(4000601 + 1000 * j, ord(t)) k == R(4000602 + 1000 * j, ord(t))
      use == (IF t = "P" THEN <<[t |-> t, op |-> "Multiply", d |-> 1, a |-> 2, b |-> 3], [t |-> t, op |-> "Double", d |-> 1, a |-> 2], [t |-> t, op |-> "IsZero", a |-> 2],
                                [t |-> t, op |-> "OnCurve", a |-> 2], [t |-> t, op |-> "OnCurve", a |-> 1], [t |-> t, op |-> "Add", d |-> 1, a |-> 2, b |-> 3]>>
              ELSE <<[t |-> t, op |-> "Add", d |-> 1, a |-> 2, b |-> 3], [t |-> t, op |-> IF t = "GT" THEN "IsOne" ELSE "IsZero", a |-> 2],
                     [t |-> t, op |-> "Marshal", a |-> 2], [t |-> t, op |-> "Marshal", a |-> 3]>>)
             \o <<[t |-> t, op |-> "Mul", d |-> 1, a |-> 2, k |-> k], [t |-> t, op |-> "Same"], [t |-> t, op |-> "Neg", d |-> 1, a |-> 2]>>
      base(d, z) == <<[t |-> t, op |-> "Base", d |-> d, k |-> z]>>
      neg(d) == <<[t |-> t, op |-> "Neg", d |-> d, a |-> d]>> IN
  base(2, x) \o base(3, y) \o use \o neg(2) \o use \o neg(3) \o use \o base(2, NAdd(x, NLit(1))) \o use \o base(2, NLit(0)) \o use
  \o base(3, NLit(0)) \o use \o base(2, NSub(NLit(0), x)) \o neg(2) \o use \o base(3, y) \o use
\* pairs of points that share a coordinate, and of objects whose value has changed
HistPair(j) ==
  LET x == R(4100600 + 1000 * j, ROrd) y == R(4100601 + 1000 * j, ROrd) k == NMod(NMul(x, y), ROrd)
      pr == <<[t |-> "GT", op |-> "Pair", d |-> 1 + (j % 2), a |-> 1, b |-> 1], [t |-> "GT", op |-> "Base", d |-> 3, k |-> k], [t |-> "GT", op |-> "Same"],
              PC(<<<<1, 1>>, <<2, 2>>>>), PC(<<<<1, 1>>, <<2, 1>>>>), PC(<<<<1, 1>>>>)>>
      n1(d) == <<[t |-> "G1", op |-> "Neg", d |-> d, a |-> d]>> n2(d) == <<[t |-> "G2", op |-> "Neg", d |-> d, a |-> d]>>
      lam == NPowMod(NLit(2 + RI(4100602 + 1000 * j, 5)), NDiv(NSub(ROrd, NLit(1)), NLit(3)), ROrd) IN
  <<B1(1, x), B2(1, y), B1(2, x), B2(2, y)>> \o pr \o n1(1) \o pr \o n2(1) \o pr \o n1(1) \o pr \o n1(2) \o pr \o <<B2(1, NMul(y, lam))>> \o pr
  \o <<B1(1, NMul(x, lam)), B2(1, y)>> \o pr \o <<B1(1, NAdd(x, ROrd))>> \o pr \o <<B1(1, NLit(0))>> \o pr \o <<B1(1, x), B2(1, NLit(0))>> \o pr
  \o <<B2(1, y)>> \o pr \o n2(2) \o pr
\* every string next to the one it was made from
HistDec(t, v, i) ==
  LET h == EncOf(t, Vals(t)[v])
      n == 32 * Words(t)
      w == NMod(NNeg(HexGet(h, i)), BnP)
      hs == SelectSeq(<<h, HexSet(h, i, NAdd(HexGet(h, i), NLit(1))), h, HexCut(h, n - 1), h, HexCut(h, n + 1), h, HexSet(h, i, w), h, HexSet(h, i, NLit(0)), h, EncOf(t, NNeg(Vals(t)[v])),
              EncOf(t, NAdd(Vals(t)[v], NLit(1))), HexSet(h, Words(t) - 1 - i, HexGet(h, i)), h>>, LAMBDA z : z # ZeroHex(t)) IN
  [m \in 1..Len(hs) |-> DOp(t, hs[m], m % 3)]
HistHash(j) ==
  LET s == HashStr(j) \o <<97, 122, 48>>
      n == Len(s)
      ss == <<s, s \o <<0>>, s \o <<32>>, SubSeq(s, 1, n - 1), s, <<32>> \o s, [s EXCEPT ![n - 2] = 65], [s EXCEPT ![n] = 49], SubSeq(s, 2, n), s, s \o s, <<48>> \o s, <<49>> \o s,
              [i \in 1..n |-> s[n + 1 - i]], [s EXCEPT ![1] = (s[1] + 1) % 128], Prefix \o s, Prefix, <<>>, s, [i \in 1..n |-> s[i] % 128], [s EXCEPT ![n - 2] = 192 + 97], s>> IN
  <<Mode(IF j % 2 = 0 THEN "reuse" ELSE "keep")>> \o Flat([i \in 1..Len(ss) |-> <<[t |-> "H", op |-> "MapToGroup", s |-> ss[i]], [t |-> "H", op |-> "HashToInt", s |-> ss[i]]>>])
HistCurve(j) ==
  LET x == HistX(4200000 + 1000 * j, FieldP) cs == Coll(x, FieldP)
      F(i) == LET z == NMod(cs[i], FieldP) y == PLiftY(z) y0 == IF PLiftY(x) = "none" THEN NLit(7) ELSE PLiftY(x) IN
              <<[t |-> "C", op |-> "F", x |-> z], COp(z, IF y = "none" THEN y0 ELSE y), COp(z, y0), COp(IF Zero(z) THEN "nil" ELSE z, NMod(NAdd(y0, NLit(1)), FieldP)), COp(z, IF y = "none" THEN "nil" ELSE NMod(NNeg(y), FieldP))>> IN
  <<Mode(IF j % 2 = 0 THEN "reuse" ELSE "keep")>> \o Flat([i \in 1..Len(cs) |-> F(i)])
HistCom(t, j, m) ==
  LET x == HistX(4300000 + 1000 * j, ord(t)) r == HistX(4300010 + 1000 * j, ord(t)) y == R(4300020 + 1000 * j, ord(t))
      K(a, b, c) == [t |-> "K", op |-> IF t = "P" THEN "CommitG1" ELSE "Commit", x |-> a, r |-> b, y |-> c] cx == Coll(x, ord(t)) cr == Coll(r, ord(t)) IN
  <<Mode(m)>> \o Flat([i \in 1..Len(cx) |-> <<K(cx[i], r, y)>>]) \o Flat([i \in 1..Len(cr) |-> <<K(x, cr[i], y)>>])
  \o <<K(r, x, y), K(x, r, NAdd(y, NLit(1))), K(x, r, NNeg(y)), K(x, x, y), K(x, r, NLit(1)), K(x, r, NLit(0)), K(x, r, y)>>
NHist == IF Thorough THEN 24 ELSE 4

(*------------------------------- C30 -------------------------------------*)
\* operands in several representations, which many goroutines use at the same time; each writes to a register of its own
MeetOp(tag, ts) ==
  LET t == ts[1 + RI(tag, Len(ts))] a == 2 + RI(tag + 1, 2) b == 2 + RI(tag + 2, 2) os == SelectSeq(WalkOps(t), LAMBDA o : o # "Same") o == os[1 + RI(tag + 4, Len(os))] IN
  CASE o \in {"IsZero", "IsOne", "OnCurve", "Marshal", "Coords"} -> [t |-> t, op |-> o, a |-> a]
    [] o = "Base" -> [t |-> t, op |-> o, d |-> 1, k |-> WalkScalar(tag + 30, t)]
    [] o \in {"SetInf", "SetZero", "Random"} -> [t |-> t, op |-> o, d |-> 1]
    [] o \in {"Neg", "Invert", "Double", "Copy"} -> [t |-> t, op |-> o, d |-> 1, a |-> a]
    [] o \in {"Mul", "Exp"} -> [t |-> t, op |-> o, d |-> 1, a |-> a, k |-> WalkScalar(tag + 30, t)]
    [] OTHER -> [t |-> t, op |-> o, d |-> 1, a |-> a, b |-> b]
MeetPair(tag) == IF RI(tag, 2) = 0 THEN [t |-> "GT", op |-> "Pair", d |-> 1, a |-> 2 + RI(tag + 1, 2), b |-> 2 + RI(tag + 2, 2)]
                 ELSE PC([j \in 1..RI(tag + 3, 4) |-> <<2 + RI(tag + 4 + j, 2), 2 + RI(tag + 14 + j, 2)>>])
MeetRest(tag) ==
  LET t == <<"P", "G2">>[1 + RI(tag + 1, 2)] IN
  CASE RI(tag, 5) = 0 -> [t |-> "K", op |-> IF t = "P" THEN "CommitG1" ELSE "Commit", x |-> R(tag + 2, ord(t)), r |-> R(tag + 3, ord(t)), y |-> R(tag + 4, ord(t))]
    [] RI(tag, 5) = 1 -> [t |-> "H", op |-> IF RI(tag + 1, 3) = 0 THEN "HashToInt" ELSE "MapToGroup", s |-> IF RI(tag + 2, 2) = 0 THEN HashStr(tag + 3) ELSE Prefix \o <<72, 48 + RI(tag + 3, 10)>>]
    [] RI(tag, 5) = 2 -> (LET u == <<"G1", "G2", "GT">>[1 + RI(tag + 5, 3)] IN DOp(u, EncOf(u, R(tag + 6, ord(u))), RI(tag + 7, 2)))
    [] RI(tag, 5) = 3 -> (LET x == R(tag + 2, FieldP) y == PLiftY(x) IN COp(x, IF y = "none" THEN NLit(5) ELSE y))
    [] OTHER -> [t |-> "C", op |-> "F", x |-> R(tag + 2, FieldP)]
MeetPrep(ts, j) == Flat([i \in 1..Len(ts) |-> LET t == ts[i] v(k) == Vals(t)[1 + RI(4500000 + 100 * j + 10 * i + k, NVals)] IN
                     Prep(t, 2, 1, v(1), 1 + RI(4500003 + 100 * j + 10 * i, NPrep)) \o Prep(t, 3, 1, v(2), 1 + RI(4500004 + 100 * j + 10 * i, NPrep))])
MeetScript(ts, j, w) ==
  LET ops2(k) == [i \in 1..w |-> LET tag == 4600000 + 10000 * j + 100 * (i + w * k) IN
                   IF ts = <<>> \/ (Len(ts) = 4 /\ i % 3 = 0) THEN MeetRest(tag)
                   ELSE IF Len(ts) > 1 /\ i % 4 = 1 THEN MeetPair(tag) ELSE MeetOp(tag, ts)]
      regs == TLCEval(LET p == MeetPrep(ts, j) RECURSIVE go(_, _) go(i, r) == IF i > Len(p) THEN r ELSE go(i + 1, Apply(r, p[i], NLit(1))) IN go(1, InitRegs))
      legal(os) == SelectSeq(os, LAMBDA o : o.t \in {"D", "H", "C", "K"} \/ Enabled(regs, o))
      see == Flat([i \in 1..Len(ts) |-> Look(ts[i])])
  IN  MeetPrep(ts, j) \o <<Together(legal(ops2(0)))>> \o see \o <<Together(legal(ops2(1)))>> \o see
\* calls of the same function, o: with w goroutines
SameOp(o, t, tag) ==
  LET a == 2 + RI(tag + 1, 2) b == 2 + RI(tag + 2, 2) IN
  CASE o \in {"IsZero", "IsOne", "OnCurve", "Marshal", "Coords"} -> [t |-> t, op |-> o, a |-> a]
    [] o = "Base" -> [t |-> t, op |-> o, d |-> 1, k |-> WalkScalar(tag + 30, t)]
    [] o \in {"SetInf", "SetZero", "Random"} -> [t |-> t, op |-> o, d |-> 1]
    [] o \in {"Neg", "Invert", "Double", "Copy"} -> [t |-> t, op |-> o, d |-> 1, a |-> a]
    [] o \in {"Mul", "Exp"} -> [t |-> t, op |-> o, d |-> 1, a |-> a, k |-> WalkScalar(tag + 30, t)]
    [] o = "Decode" -> DOp(t, EncOf(t, R(tag + 6, ord(t))), RI(tag + 7, 2))
    [] o = "Pair" -> [t |-> "GT", op |-> "Pair", d |-> 1, a |-> a, b |-> b]
    [] o = "Check" -> PC([j \in 1..RI(tag + 3, 4) |-> <<2 + RI(tag + 4 + j, 2), 2 + RI(tag + 14 + j, 2)>>])
    [] o = "CommitG1" -> [t |-> "K", op |-> o, x |-> R(tag + 2, ord("P")), r |-> R(tag + 3, ord("P")), y |-> R(tag + 4, ord("P"))]
    [] o = "Commit" -> [t |-> "K", op |-> o, x |-> R(tag + 2, ord("G2")), r |-> R(tag + 3, ord("G2")), y |-> R(tag + 4, ord("G2"))]
    [] o = "HashToInt" -> [t |-> "H", op |-> o, s |-> HashStr(tag + 3)]
    [] o = "MapToGroup" -> [t |-> "H", op |-> o, s |-> IF RI(tag + 2, 2) = 0 THEN HashStr(tag + 3) ELSE Prefix \o <<72, 48 + RI(tag + 3, 10)>>]
    [] o = "Curve" -> (LET x == R(tag + 2, FieldP) y == PLiftY(x) IN COp(x, IF y = "none" THEN NLit(5) ELSE y))
    [] o = "F" -> [t |-> "C", op |-> "F", x |-> R(tag + 2, FieldP)]
    [] OTHER -> [t |-> t, op |-> o, d |-> 1, a |-> a, b |-> b]
SameScript(o, t, j, w) ==
  LET ts == IF t = "PR" THEN <<"G1", "G2">> ELSE IF t = "" THEN <<"P">> ELSE <<t>>
      calls == [i \in 1..w |-> SameOp(o, t, 4700000 + 10000 * j + 100 * i)]
      regs == TLCEval(LET p == MeetPrep(ts, j) RECURSIVE go(_, _) go(i, r) == IF i > Len(p) THEN r ELSE go(i + 1, Apply(r, p[i], NLit(1))) IN go(1, InitRegs))
      legal(os) == SelectSeq(os, LAMBDA q : q.t \in {"D", "H", "C", "K"} \/ Enabled(regs, q))
      see == Flat([i \in 1..Len(ts) |-> Look(ts[i])])
  IN  MeetPrep(ts, j) \o <<Together(legal(calls))>> \o see
SameKinds == UNION {{<<o, t>> : o \in {WalkOps(t)[i] : i \in DOMAIN WalkOps(t)} \ {"Same"}} : t \in {"P", "G1", "G2", "GT"}}
             \cup {<<"Decode", t>> : t \in {"G1", "G2", "GT"}} \cup {<<o, "PR">> : o \in {"Pair", "Check"}}
             \cup {<<o, "">> : o \in {"CommitG1", "Commit", "HashToInt", "MapToGroup", "Curve", "F"}}
MeetKinds == {<<"P">>, <<"G1">>, <<"G2">>, <<"GT">>, <<"G1", "G2">>, <<"P", "G1", "G2", "GT">>, <<>>}

(*------------------------------- C31 -------------------------------------*)
\* lists of registers: all orders, repeated elements, empty lists; the number of the list selects it
XList(tag, lo, hi) == LET n == lo + RI(tag, hi - lo + 1) IN [i \in 1..n |-> 1 + RI(tag + i, NReg)]
XHash(l, s) == [t |-> "X", op |-> "Hash", l |-> l, s |-> s]
XSet(a, s) == [t |-> "X", op |-> "HashSet", l |-> <<a>>, s |-> s]
XBP(l) == [t |-> "X", op |-> "HashBP", l |-> l]
XNum(xs) == [t |-> "X", op |-> "CalculateHash", xs |-> xs]
Perms3 == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>>>
\* every list that differs from <<1, 2, 3>> in one place or is a part of it
XNear == Perms3 \o <<<<1, 1, 2>>, <<1, 2, 2>>, <<1, 2>>, <<2, 3>>, <<1, 3>>, <<1, 2, 3, 3>>, <<1, 2, 3, 1>>, <<3, 1, 2, 3>>, <<1, 1>>, <<2, 2>>, <<1, 2, 3, 1, 2, 3>>, <<3, 3, 3>>>>
\* Prep may use register 1 for its work, so that it is filled last
XPrep(t, j) == Flat([m \in 1..NReg |-> LET i == NReg + 1 - m tag == 4700000 + 1000 * j + 10 * i IN
                 IF m = 1 THEN Prep(t, i, 1, IF t # "P" /\ RI(tag, 4) = 0 THEN Vals(t)[1 + RI(tag + 1, NVals)] ELSE R(tag + 2, ord(t)), 1 + RI(tag + 3, NPrep))
                 ELSE IF m < NReg THEN Prep(t, i, 1, R(tag + 2, ord(t)), 1 + RI(tag + 3, NPrep))
                 ELSE <<[t |-> t, op |-> "Base", d |-> i, k |-> R(tag + 2, ord(t))]>>])
XChange(t, d, j) == CASE j % 3 = 0 -> <<[t |-> t, op |-> "Neg", d |-> d, a |-> d]>>
                      [] j % 3 = 1 -> <<[t |-> t, op |-> "Add", d |-> d, a |-> d, b |-> 1 + (d % NReg)]>>
                      [] OTHER -> <<[t |-> t, op |-> "Mul", d |-> d, a |-> d, k |-> NLit(3)]>>
XPoints(j) == <<Mode(<<"", "keep", "reuse">>[1 + (j % 3)])>> \o XPrep("P", j) \o [i \in DOMAIN XNear |-> XBP(XNear[i])]
  \o Flat([d \in 1..3 |-> XChange("P", d, j + d) \o <<XBP(<<1, 2, 3>>), XBP(<<1, 2>>), XBP(<<3, 1>>)>>])
  \o <<[t |-> "P", op |-> "Base", d |-> 2, k |-> NLit(5)], [t |-> "P", op |-> "Base", d |-> 3, k |-> NLit(-5)], XBP(<<1, 2, 3>>), XBP(<<1, 3, 2>>), XBP(<<2, 3>>), XBP(<<3, 2>>),
       [t |-> "P", op |-> "Neg", d |-> 3, a |-> 3], XBP(<<2, 3>>), XBP(<<3, 2>>)>>
XPairs(j) == <<Mode(<<"", "keep", "reuse">>[1 + (j % 3)])>> \o XPrep("GT", j) \o XPrep("G2", j)
  \o [i \in DOMAIN XNear |-> IF j % 2 = 0 THEN XHash(XNear[i], <<1, 2, 3>>) ELSE XHash(<<1, 2>>, XNear[i])]
  \o [i \in DOMAIN XNear |-> XSet(XNear[i][1], XNear[i])]
  \o <<XHash(<<>>, <<1>>), XHash(<<>>, <<2, 1>>), XHash(<<1>>, <<1>>), XSet(1, <<1>>), XSet(2, <<1>>), XSet(1, <<1, 1>>)>>
  \o Flat([d \in 1..3 |-> XChange("GT", d, j + d) \o <<XHash(<<1, 2, 3>>, <<1>>), XSet(d, <<1, 2>>)>> \o XChange("G2", d, j + d + 1)
                           \o <<XHash(<<1, 2, 3>>, <<1, 2, 3>>), XHash(<<1>>, <<2, 3>>), XSet(d, <<1, 2, 3>>)>>])
  \* the identity, in place of one argument after the other
  \o Flat([d \in 1..3 |-> <<[t |-> "G2", op |-> "Base", d |-> d, k |-> NLit(0)], XHash(<<1, 2>>, <<1, 2, 3>>), XSet(1, <<1, 2, 3>>), XSet(1, <<d>>), XSet(2, <<3, d>>), XHash(<<>>, <<d, 3>>),
                           [t |-> "GT", op |-> "Base", d |-> d, k |-> NLit(0)], XHash(<<1, 2, 3>>, <<3>>), XHash(<<3, d>>, <<3>>), XHash(<<d>>, <<d>>), XSet(d, <<1, 2, 3>>), XSet(d, <<d>>)>>])
XNumVals(j) == LET x == R(4800000 + 10 * j, TwoTo(1 + RI(4800001 + 10 * j, 300))) y == R(4800002 + 10 * j, TwoTo(256)) IN
  Coll(x, y) \o <<NLit(127), NLit(128), NLit(255), NLit(256), NLit(-1), NLit(-128), NLit(-129), TwoTo(63), TwoTo(255), NNeg(TwoTo(255)), NSub(TwoTo(256), NLit(1)), y, NNeg(y)>>
XNums(j) == LET v == XNumVals(j) n == Len(v) IN <<Mode(<<"", "keep", "reuse", "scribble">>[1 + (j % 4)])>>
  \o Flat([i \in 1..n |-> <<XNum(<<v[i], v[1 + ((i + j) % n)]>>), XNum(<<v[i]>>), XNum(<<v[1 + ((i + j) % n)], v[i]>>), XNum(<<v[i], v[i]>>)>>])
XLong(n) == XPrep("P", n) \o XPrep("GT", n) \o XPrep("G2", n)
  \o LET l(k) == [i \in 1..k |-> 1 + ((i * i + k) % NReg)] off(k, p) == [l(k) EXCEPT ![p] = 1 + (@ % NReg)] IN
     Flat([i \in 1..6 |-> LET p == <<1, 2, n \div 2, n - 1, n, n>>[i] s == IF i = 6 THEN l(n) ELSE off(n, p) IN <<XBP(s), XHash(s, <<1>>), XHash(<<1>>, s), XSet(1, s)>>])
XWalk(j) == XPrep("P", j) \o XPrep("GT", j) \o XPrep("G2", j)
  \o Flat([i \in 1..12 |-> LET tag == 4900000 + 1000 * j + 50 * i t == <<"P", "G2", "GT">>[1 + RI(tag, 3)] IN
       XChange(t, 1 + RI(tag + 1, NReg), RI(tag + 2, 3))
       \o <<CASE RI(tag + 3, 3) = 0 -> XBP(XList(tag + 4, 2, 8)) [] RI(tag + 3, 3) = 1 -> XHash(XList(tag + 4, 0, 6), XList(tag + 20, 1, 6)) [] OTHER -> XSet(1 + RI(tag + 4, NReg), XList(tag + 5, 1, 5))>>])

(*------------------------------------------------------------------------*)
Chunks ==
  CASE Part = "C19" -> GroupChunks("P") \cup {<<"walk", <<"P">>, i>> : i \in 1..(3 * NWalks)} \cup {<<"hist", f, "P", i>> : f \in {"nums", "pts"}, i \in 1..NHist}
    [] Part = "C20" -> UNION {GroupChunks(t) \cup {<<"r", t>>} \cup {<<"walk", <<t>>, i>> : i \in 1..NWalks} \cup {<<"hist", f, t, i>> : f \in {"nums", "pts"}, i \in 1..NHist} : t \in {"G1", "G2", "GT"}}
    [] Part = "C21" -> {<<"pair", v>> : v \in 1..NVals} \cup {<<"check", i>> : i \in 1..(IF Thorough THEN 400 ELSE 24)} \cup {<<"longpc", n>> : n \in {6, 8, 10, 16, 18, 32, 34, 64, 66, 130}}
                       \cup {<<"walk", <<"G1", "G2">>, i>> : i \in 1..NWalks} \cup {<<"hist", "pair", "GT", i>> : i \in 1..(2 * NHist)}
    [] Part = "C22" -> {<<"canon", t, v>> : t \in {"G1", "G2", "GT"}, v \in 1..NVals} \cup {<<"dec", t, v>> : t \in {"G1", "G2", "GT"}, v \in 1..NVals}
                       \cup {<<"short", t, i>> : t \in {"G1", "G2", "GT"}, i \in 1..(IF Thorough THEN 8 ELSE 1)}
                       \cup {<<"lift", t, i>> : t \in {"G1", "G2", "GT"}, i \in 1..(IF Thorough THEN 200 ELSE 12)}
                       \cup {<<"histdec", t, v>> : t \in {"G1", "G2", "GT"}, v \in 1..NVals}
    [] Part = "C23" -> {<<"hash", "one", x>> : x \in (0..255) \cup {2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111}} \cup {<<"hash", "pre", x>> : x \in 0..70}
                       \cup {<<"hash", "long", x>> : x \in 0..40} \cup {<<"hash", "rand", x>> : x \in 1..(IF Thorough THEN 3000 ELSE 150)}
                       \cup {<<"tries", j>> : j \in 0..(IF Thorough THEN 700 ELSE 47)}
                       \cup {<<"curve", i>> : i \in 0..(IF Thorough THEN 300 ELSE 40)}
                       \cup {<<"hist", f, "P", i>> : f \in {"hash", "curve"}, i \in 1..(5 * NHist)}
    [] Part = "C28" -> {<<"com", t, x>> : t \in {"P"}, x \in ComVals("P")} \cup {<<"com", t, x>> : t \in {"G2"}, x \in ComVals("G2")}
                       \cup {<<"histcom", t, i, m>> : t \in {"P", "G2"}, i \in 1..NHist, m \in Modes}
    [] Part = "C31" -> {<<"x", f, j>> : f \in {"points", "pairs", "nums", "walk"}, j \in 1..(IF Thorough THEN 120 ELSE 12)} \cup {<<"x", "long", n>> : n \in {9, 16, 17, 33, 65, 130}}
    [] Part = "C30" -> {<<"meet", ts, j>> : ts \in MeetKinds, j \in 1..(IF Thorough THEN 40 ELSE 3)} \cup {<<"same", c[1], c[2], j>> : c \in SameKinds, j \in 1..(IF Thorough THEN 8 ELSE 1)}

Scripts(c) ==
  CASE c[1] = "x" -> {CASE c[2] = "points" -> XPoints(c[3]) [] c[2] = "pairs" -> XPairs(c[3]) [] c[2] = "long" -> XLong(c[3]) [] c[2] = "nums" -> XNums(c[3]) [] c[2] = "walk" -> XWalk(c[3])}
    [] c[1] = "meet" -> {MeetScript(c[2], c[3], 12)}
    [] c[1] = "same" -> {SameScript(c[2], c[3], c[4], 10)}
    [] c[1] = "2" -> Scripts2(c[2], c[3], c[4])
    [] c[1] = "1" -> Scripts1(c[2], c[3], c[4])
    [] c[1] = "k" -> ScriptsK(c[2], c[3], c[4])
    [] c[1] = "b" -> ScriptsB(c[2])
    [] c[1] = "r" -> ScriptsR(c[2])
    [] c[1] = "pair" -> PairScripts(c[2])
    [] c[1] = "check" -> {CheckScript(c[2]), ZeroScript(c[2])}
    [] c[1] = "longpc" -> {LongScript(c[2])}
    [] c[1] = "canon" -> CanonScripts(c[2], c[3])
    [] c[1] = "short" -> ShortScripts(c[2], c[3])
    [] c[1] = "dec" -> Decodes(c[2], DecodeStrings(c[2], c[3]))
    [] c[1] = "lift" -> Decodes(c[2], LiftStrings(c[2], c[3]))
    [] c[1] = "hash" -> HashScripts(c)
    [] c[1] = "tries" -> TryScripts(c[2])
    [] c[1] = "curve" -> UNION {CurvePts(x) : x \in CurveXs(c[2])}
    [] c[1] = "com" -> ComScripts(c[2], c[3])
    [] c[1] = "histcom" -> {HistCom(c[2], c[3], c[4])}
    [] c[1] = "histdec" -> {HistDec(c[2], c[3], i) : i \in 0..(Words(c[2]) \div 2 - 1)}
    [] c[1] = "hist" -> {CASE c[2] = "nums" -> HistNums(c[3], c[4]) [] c[2] = "pts" -> HistPts(c[3], c[4]) [] c[2] = "pair" -> HistPair(c[4])
                           [] c[2] = "hash" -> HistHash(c[4]) [] c[2] = "curve" -> HistCurve(c[4])}

\* registers an operation of a table looks at may be empty
Trim(s) == LET keep(i, r) == Enabled(r, s[i])
               RECURSIVE go(_, _)
               go(i, r) == IF i > Len(s) THEN <<>>
                           ELSE IF s[i].t = "X" THEN (IF Hashable(r, s[i]) THEN <<s[i]>> ELSE <<>>) \o go(i + 1, r)
                           ELSE IF s[i].t \notin {"D", "H", "C", "K", "M", "T"} /\ ~ Enabled(r, s[i])
                                THEN (IF s[i].op \in {"IsZero", "IsOne", "OnCurve", "Marshal", "Coords"} THEN go(i + 1, r) ELSE <<[t |-> "D", op |-> "illegal"]>>)
                                ELSE <<s[i]>> \o go(i + 1, IF s[i].t \in {"D", "H", "C", "K", "M", "T", "PC"} THEN r ELSE Apply(r, s[i], NLit(1)))
           IN go(1, InitRegs)

Init == chunk \in Chunks /\ ops = <<>> /\ rg = InitRegs /\ fin = FALSE
Next == /\ ~ fin /\ chunk' = chunk
        /\ IF chunk[1] = "walk"
           THEN LET op == WalkOp(chunk[3] + (CASE chunk[2] = <<"P">> -> 0 [] chunk[2] = <<"G1">> -> 1000 [] chunk[2] = <<"G2">> -> 2000 [] chunk[2] = <<"GT">> -> 3000 [] OTHER -> 4000),
                                 Len(ops), chunk[2]) IN
                ops' = Append(ops, op) /\ rg' = Apply(rg, op, NLit(1)) /\ fin' = (Len(ops') = Depth)
           ELSE \E s \in Scripts(chunk) : LET u == Trim(s) IN Len(u) > 0 /\ u[Len(u)].op # "illegal" /\ ops' = u /\ rg' = rg /\ fin' = TRUE
Out == ~ fin \/ Emit(ops)
=============================================================================
