------------------------------ MODULE ArithGen ------------------------------
(* The calls the real code is asked to make, for C26 and C27.              *)
EXTENDS ModArith, TraceKit
CONSTANT Part
VARIABLES chunk, op                \* op: the calls of one behaviour

None == <<>>
R(tag, bound) == NRand(Seed, tag, bound)
RI(tag, n) == NInt(R(tag, NLit(n)))                                 \* native, 0..n-1
TwoTo(k) == NPow(NLit(2), k)
Sgn(x) == {x, NNeg(x)}

(*---- C26 ----*)
\* the limits of machine words
Words == {TwoTo(k) : k \in {7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128}}
Bases == {NLit(u) : u \in {1, 2, 3, 4, 7, 10, 16, 57, 256, 1000}} \cup {TwoTo(31), TwoTo(32), TwoTo(62), NSub(TwoTo(63), NLit(1))}
Lens == {0, 1, 2, 3, 8, 11, 16, 32, 64, 65, 128, 130, 257}
DecNums(u, l, c) ==
  LET top == NPow(u, l) IN
  UNION {Sgn(NAdd(top, NLit(d))) : d \in -1..1}
  \cup {NLit(d) : d \in -1..2} \cup UNION {Sgn(NAdd(x, NLit(d))) : x \in Words, d \in {-1, 0}} \cup {u, NSub(u, NLit(1)), NAdd(u, NLit(1)), NSub(top, u), NDiv(top, u)}
  \cup UNION {Sgn(R(c * 1000 + i, NMul(top, NLit(3)))) : i \in 1..(IF Thorough THEN 60 ELSE 6)}
  \cup UNION {Sgn(R(c * 1000 + 500 + i, top)) : i \in 1..(IF Thorough THEN 60 ELSE 6)}

(*---- C27 ----*)
Mods == {NLit(m) : m \in {1, 2, 3, 4, 6, 9, 15, 97, 100, -1, -7, -12}} \cup {q, NAdd(q, NLit(1)), TwoTo(63), TwoTo(64), NSub(TwoTo(64), NLit(1)), TwoTo(128), TwoTo(255), NAdd(R(5, TwoTo(1100)), TwoTo(1100))}
Nums == UNION {Sgn(x) : x \in {NLit(0), NLit(1), NLit(2), NLit(3), NLit(6), NLit(10), q, NSub(q, NLit(1)), NAdd(q, NLit(1)),
                               NMul(q, NLit(2)), TwoTo(31), TwoTo(32), TwoTo(63), TwoTo(64), NSub(TwoTo(64), NLit(1)), NSub(TwoTo(128), NLit(1)), TwoTo(256), R(1, q), R(2, TwoTo(512)), R(4, TwoTo(2100))}}
Exps == UNION {Sgn(x) : x \in {NLit(0), NLit(1), NLit(2), NLit(3), NLit(5), NLit(64), TwoTo(31), TwoTo(32), TwoTo(63), TwoTo(64), NAdd(TwoTo(64), NLit(3)), NSub(q, NLit(2)), NSub(q, NLit(1)), q, R(3, q)}}

Scalar(tag) ==
  LET k == RI(tag, 12) IN
  CASE k = 0 -> NLit(0) [] k = 1 -> NLit(1) [] k = 2 -> NSub(q, NLit(1)) [] k = 3 -> q [] k = 4 -> NLit(-1)
    [] k = 5 -> NNeg(R(tag + 1, q)) [] k = 6 -> R(tag + 2, TwoTo(300)) [] OTHER -> R(tag + 3, q)
Vec(tag, n) == [i \in 1..n |-> Scalar(tag + 16 * i)]
Small(tag) == LET k == RI(tag, 10) IN
  CASE k = 0 -> NLit(0) [] k = 1 -> NSub(TwoTo(63), NLit(1)) [] k = 2 -> NNeg(TwoTo(63)) [] k = 3 -> NLit(-1) [] OTHER -> NSub(R(tag + 1, TwoTo(20)), TwoTo(19))
VLens == {0, 1, 2, 3, 4, 5, 8, 16, 32, 33, 64, 65, 128, 130, 257}
\* points by discrete logarithm: equal, opposite and infinite ones included
PLog(tag) == LET k == RI(tag, 8) IN
  CASE k = 0 -> NLit(0) [] k = 1 -> NLit(1) [] k = 2 -> NLit(5) [] k = 3 -> NSub(q, NLit(5)) [] k = 4 -> NSub(q, NLit(1)) [] k = 5 -> NLit(2) [] OTHER -> R(tag + 3, q)
PVec(tag, n) == [i \in 1..n |-> PLog(tag + 16 * i)]

Bin == {"VectorAdd", "VectorSub", "VectorMul", "ScalarProduct"}
VecOps(n, c) ==
  LET tag == 100000 * c + 1000 * n IN
  {[op |-> o, a |-> Vec(tag, n), b |-> Vec(tag + 7, m)] : o \in Bin, m \in {n, n + 1} \cup (IF n = 0 THEN {} ELSE {n - 1})}
  \cup {[op |-> o, a |-> Vec(tag, n), b |-> Vec(tag, n)] : o \in Bin}
  \cup {[op |-> "VectorScalarMul", a |-> Vec(tag, n), x |-> Scalar(tag + 3)]}
  \cup {[op |-> "VectorCopy", x |-> Scalar(tag + 4), n |-> NLit(n)]}
  \cup {[op |-> "PowerOf", x |-> Scalar(tag + 5), n |-> NLit(n)]}
  \cup {[op |-> "VectorConvertToBig", a |-> [i \in 1..n |-> Small(tag + 16 * i)]]}
  \cup (IF n > 8 /\ c > 2 THEN {} ELSE
        {[op |-> "VectorExp", a |-> PVec(tag, n), b |-> Vec(tag + 9, m)] : m \in {n, n + 1} \cup (IF n = 0 THEN {} ELSE {n - 1})}
        \cup {[op |-> "VectorECAdd", a |-> PVec(tag, n), b |-> PVec(tag + 11, m)] : m \in {n, n + 1} \cup (IF n = 0 THEN {} ELSE {n - 1})}
        \cup {[op |-> "VectorECAdd", a |-> PVec(tag, n), b |-> PVec(tag, n)]})

(*---- histories: arguments that agree in part, with the same argument objects, or results kept or written into ----*)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Coll(x) == <<x, NAdd(x, TwoTo(64)), NNeg(x), NAdd(x, TwoTo(32)), x, NAdd(x, TwoTo(63)), NAdd(x, NLit(1)), NAdd(x, q), NAdd(x, TwoTo(256)), NLit(0), x>>
Logs(x) == <<x, NMod(NNeg(x), q), NAdd(x, NLit(1)), NLit(0), x>>
Vary(o, f) == LET s == Coll(o[f]) IN [i \in 1..Len(s) |-> [o EXCEPT ![f] = s[i]]]
NonZero(o, f) == SelectSeq(Vary(o, f), LAMBDA y : ~ NEq(y[f], NLit(0)))
VaryAt(o, f, j, s) == [i \in 1..Len(s) |-> [o EXCEPT ![f][j] = s[i]]]
Cut(o, n) == [o EXCEPT !.a = SubSeq(@, 1, n), !.b = SubSeq(@, 1, n)]
Nums3(tag) == [x |-> IF RI(tag, 3) = 0 THEN R(tag + 1, TwoTo(60)) ELSE R(tag + 1, q), e |-> IF RI(tag + 2, 2) = 0 THEN NAdd(NLit(1), R(tag + 3, NLit(20))) ELSE R(tag + 3, q),
               m |-> IF RI(tag + 4, 2) = 0 THEN q ELSE NAdd(NLit(2), R(tag + 5, TwoTo(100)))]
HistFns27 == {"ModPow", "ModInverse", "Mod", "Add", "Sub", "Multiply", "VectorAdd", "VectorSub", "VectorMul", "ScalarProduct", "VectorScalarMul", "VectorCopy", "PowerOf",
              "VectorConvertToBig", "VectorExp", "VectorECAdd"}
Hist(f, j) ==
  LET tag == 3000000 + 1000 * j t == Nums3(tag)
      n == 2 + RI(tag + 6, 4)
      v == Vec(tag + 100, n) w == Vec(tag + 200, n)
      vv == [op |-> f, a |-> v, b |-> w] IN
  CASE f = "Decompose" ->
         LET o == [op |-> f, x |-> t.x, u |-> NAdd(NLit(2), R(tag + 7, NLit(15))), l |-> NLit(4 + n)]
             us == <<o.u, NAdd(o.u, TwoTo(32)), NAdd(o.u, NLit(1)), o.u>> ls == <<4 + n, 5 + n, 3 + n, 0, 64, 4 + n>> IN
         Vary(o, "x") \o [i \in 1..Len(us) |-> [o EXCEPT !.u = us[i]]] \o [i \in 1..Len(ls) |-> [o EXCEPT !.l = NLit(ls[i])]]
    [] f = "ModPow" -> LET o == [op |-> f, x |-> t.x, e |-> t.e, m |-> t.m] IN Vary(o, "x") \o Vary(o, "e") \o NonZero(o, "m") \o <<[o EXCEPT !.x = t.e, !.e = t.x]>>
    [] f \in {"ModInverse", "Mod"} -> LET o == [op |-> f, x |-> t.x, m |-> t.m] IN Vary(o, "x") \o NonZero(o, "m")
    [] f \in {"Add", "Sub", "Multiply"} -> LET o == [op |-> f, x |-> t.x, y |-> t.e] IN Vary(o, "x") \o Vary(o, "y") \o <<[o EXCEPT !.x = t.e, !.y = t.x]>>
    [] f \in Bin -> VaryAt(vv, "a", 1, Coll(v[1])) \o VaryAt(vv, "b", n, Coll(w[n])) \o <<Cut(vv, n - 1), vv, [vv EXCEPT !.a = w, !.b = v], [vv EXCEPT !.b = v], vv>>
    [] f = "VectorScalarMul" -> LET o == [op |-> f, a |-> v, x |-> t.x] IN Vary(o, "x") \o VaryAt(o, "a", n, Coll(v[n])) \o <<[o EXCEPT !.a = SubSeq(v, 1, n - 1)], o>>
    [] f \in {"VectorCopy", "PowerOf"} ->
         LET o == [op |-> f, x |-> t.x, n |-> NLit(n)] ns == <<n, n - 1, n + 3, 1, 0, n>> IN
         Vary(o, "x") \o [i \in 1..6 |-> [o EXCEPT !.n = NLit(ns[i])]]
    [] f = "VectorConvertToBig" ->
         LET o == [op |-> f, a |-> [i \in 1..n |-> Small(tag + 300 + 16 * i)]] IN <<o, [o EXCEPT !.a[n] = NLit(0)], [o EXCEPT !.a = SubSeq(@, 1, n - 1)], [o EXCEPT !.a[1] = NLit(-1)], o>>
    [] f = "VectorExp" ->
         LET o == [op |-> f, a |-> PVec(tag + 100, n), b |-> w] IN VaryAt(o, "b", n, Coll(w[n])) \o VaryAt(o, "a", n, Logs(t.x)) \o <<Cut(o, n - 1), o>>
    [] f = "VectorECAdd" ->
         LET o == [op |-> f, a |-> PVec(tag + 100, n), b |-> PVec(tag + 200, n)] IN VaryAt(o, "b", n, Logs(t.x)) \o VaryAt(o, "a", n, Logs(t.e)) \o <<Cut(o, n - 1), o>>

Ops(c) ==
  CASE c[1] = "dec" -> {[op |-> "Decompose", x |-> x, u |-> c[2], l |-> NLit(c[3])] : x \in DecNums(c[2], c[3], c[3] + 1)}
    [] c[1] = "mod" -> {[op |-> "ModPow", x |-> c[2], e |-> e, m |-> m] : e \in Exps, m \in Mods}
                       \cup {[op |-> o, x |-> c[2], m |-> m] : o \in {"ModInverse", "Mod"}, m \in Mods}
                       \cup {[op |-> o, x |-> c[2], y |-> y] : o \in {"Add", "Sub", "Multiply"}, y \in Nums}
    [] c[1] = "vec" -> VecOps(c[2], c[3])

\* the calls of two histories, made at the same time
Meet(f, g) == LET RECURSIVE go(_) go(j) == IF j = 0 THEN <<>> ELSE <<Together(Hist(f, 40 + j) \o Hist(g, 50 + j))>> \o go(j - 1) IN go(IF Thorough THEN 5 ELSE 1)
Chunks ==
  IF Part = "C30" THEN {<<"together", f, g>> : f \in HistFns27 \cup {"Decompose"}, g \in HistFns27 \cup {"Decompose"}}
  ELSE IF Part = "C26" THEN {<<"dec", u, l>> : u \in Bases, l \in Lens} \cup {<<"hist", "Decompose", j, m>> : j \in 1..(IF Thorough THEN 40 ELSE 6), m \in Modes}
  ELSE {<<"hist", f, j, m>> : f \in HistFns27, j \in 1..(IF Thorough THEN 40 ELSE 4), m \in Modes} \cup {<<"mod", x>> : x \in Nums} \cup {<<"vec", n, c>> : n \in VLens, c \in 1..(IF Thorough THEN 150 ELSE 15)}

Init == chunk \in Chunks /\ op = None
Next == op = None /\ chunk' = chunk /\ op' \in (IF chunk[1] = "hist" THEN {<<Mode(chunk[4])>> \o Hist(chunk[2], chunk[3])}
                                                ELSE IF chunk[1] = "together" THEN {Meet(chunk[2], chunk[3])} ELSE {<<o>> : o \in Ops(chunk)})
Out == op = None \/ Emit(op)
=============================================================================
