------------------------------ MODULE CodecGen ------------------------------
(***************************************************************************)
(* The calls the real code is asked to make, for C24 and C25.  Each        *)
(* reachable state with a non-empty op is one behaviour.                   *)
(***************************************************************************)
EXTENDS Codec, TraceKit
CONSTANT Part
VARIABLES chunk, op                \* op: the calls of one behaviour

None == <<>>

(*---- C24 ----*)
KMax == IF Thorough THEN 1100 ELSE 300
Near(k) == {NAdd(s, NLit(d)) : s \in {NPow(NLit(2), k), NNeg(NPow(NLit(2), k))}, d \in -2..2}
Edge == {0, 1, 127, 128, 254, 255}
RandBytes(i) == LET n == 1 + NInt(NRand(Seed, 2 * i, NLit(70)))
                IN  [j \in 1..n |-> NInt(NRand(Seed, 1000000 + i * 100 + j, NLit(256)))]
\* random bytes after redundant or almost redundant leading bytes
Prefixed(i) == {p \o RandBytes(i) : p \in {<<>>, <<0>>, <<255>>, <<0, 0, 0>>, <<255, 255>>, <<128>>, <<127, 255>>}}
RandNum(i) == LET k == 1 + NInt(NRand(Seed, 5 * i, NLit(1200)))
                  r == NRand(Seed, 5 * i + 1, NPow(NLit(2), k))
              IN  {r, NNeg(r)}
NRandom == IF Thorough THEN 1500 ELSE 150

(*---- C25 ----*)
Alphabet == IF Thorough THEN {48, 55, 45, 44, 43, 32, 120, 47, 58} ELSE {48, 55, 45, 44, 43, 120}
TLen == 4
Odd == {0, 9, 10, 32, 43, 46, 47, 58, 69, 95, 101, 127, 128, 178, 255}      \* neighbours of the alphabet
RandField(i, j) ==
  LET n == NInt(NRand(Seed, 7000000 + 100 * i + j, NLit(60)))
      sgn == NInt(NRand(Seed, 8000000 + 100 * i + j, NLit(3)))
  IN  (IF sgn = 0 /\ n > 0 THEN <<Minus>> ELSE <<>>)
      \o [d \in 1..n |-> 48 + NInt(NRand(Seed, 9000000 + 10000 * i + 100 * j + d, NLit(10)))]
RECURSIVE RandText(_, _)
RandText(i, j) == IF j = 0 THEN RandField(i, 0) ELSE RandText(i, j - 1) \o <<Comma>> \o RandField(i, j)
\* one byte of a valid text replaced by, or preceded by, an arbitrary one
Spoil(s, i) == LET k == 1 + NInt(NRand(Seed, 3 * i, NLit(Len(s)))) IN
  {[s EXCEPT ![k] = c] : c \in Odd \cup {Minus, Comma}}
  \cup {SubSeq(s, 1, k - 1) \o <<c>> \o SubSeq(s, k, Len(s)) : c \in Odd \cup {Minus, Comma}}

\* numbers next to the limits of machine words and of decimal lengths, plain, signed, with leading zeros, in lists
RECURSIVE DecText(_)
DecText(x) == IF NLt(x, NLit(10)) THEN <<48 + NInt(x)>>
              ELSE Append(DecText(NDiv(x, NLit(10))), 48 + NInt(NMod(x, NLit(10))))
Limits(k) == {NAdd(b, NLit(d)) : b \in {NPow(NLit(2), k), NPow(NLit(10), k)}, d \in -1..1}
             \cup {NRand(Seed, 12000000 + 10 * k + i, NPow(NLit(10), k + 1)) : i \in 1..3}
             \cup {NSub(NPow(NLit(10), k + 1), NAdd(NLit(1), NRand(Seed, 12500000 + k, NPow(NLit(10), k))))}
LimitTexts(k) ==
  UNION {LET t == DecText(x) IN {t, <<Minus>> \o t, <<48>> \o t, <<Minus, 48, 48>> \o t, <<55, Comma>> \o t, t \o <<Comma, Minus>> \o t, <<Comma>> \o t \o <<Comma>>} : x \in Limits(k)}
LimitExp == IF Thorough THEN 0..140 ELSE (0..40) \cup {52, 53, 62, 63, 64, 65, 95, 96, 127, 128, 255, 256}

Texts(c) == UNION {{<<c>> \o s : s \in [1..n -> Alphabet]} : n \in 0..(TLen - 1)}
Both(b) == {[op |-> "Parse", b |-> b], [op |-> "Convert", b |-> b], [op |-> "Base10", b |-> b]}

R2(k) == NRand(Seed, 41000000 + k, NPow(NLit(2), k))
\* many fields, and fields of many digits
ManyFields(n) == [i \in 1..(4 * n - 1) |-> IF i % 4 = 0 THEN Comma ELSE IF i % 4 = 1 /\ (i \div 4) % 3 = 0 THEN Minus ELSE 48 + NInt(NRand(Seed, 42000000 + i, NLit(10)))]
ManyDigits(n) == [i \in 1..n |-> 48 + NInt(NRand(Seed, 43000000 + i, NLit(10)))]
Ops(c) ==
  CASE c[1] = "pow" -> {[op |-> "ToBytes", x |-> x] : x \in Near(c[2])}
    [] c[1] = "huge" -> {[op |-> "ToBytes", x |-> x] : x \in Near(c[2]) \cup {R2(c[2]), NNeg(R2(c[2]))}} \cup {[op |-> "FromBytes", b |-> p \o [i \in 1..(c[2] \div 8) |-> NInt(NRand(Seed, 40000000 + c[2] + i, NLit(256)))]] : p \in {<<>>, <<0>>, <<255>>}}
    [] c[1] = "rand" -> {[op |-> "ToBytes", x |-> x] : x \in RandNum(c[2])}
                        \cup {[op |-> f, b |-> b] : f \in {"FromBytes", "Flip"}, b \in Prefixed(c[2])}
    [] c[1] = "small" -> {[op |-> "ToBytes", x |-> NLit(64 * c[2] + d)] : d \in 0..63}
    [] c[1] = "byte" -> {[op |-> f, b |-> b] : f \in {"FromBytes", "Flip"}, b \in {<<>>, <<c[2]>>}}
    [] c[1] = "edge" -> {[op |-> "FromBytes", b |-> <<c[2]>> \o b] : b \in UNION {[1..n -> Edge] : n \in 0..3}}
    [] c[1] = "text" -> UNION {Both(b) : b \in Texts(c[2])}
    [] c[1] = "limit" -> UNION {Both(b) : b \in LimitTexts(c[2])}
    [] c[1] = "one" -> UNION {Both(b) : b \in {<<>>, <<c[2]>>, <<55, c[2]>>, <<c[2], 55>>, <<Minus, c[2]>>, <<Plus, c[2]>>, <<48, c[2], 49>>}}
    [] c[1] = "many" -> LET s == ManyFields(c[2]) IN UNION {Both(b) : b \in {s, s \o <<Comma>>, s \o <<Minus>>, [s EXCEPT ![4 * (c[2] \div 2)] = Minus], [s EXCEPT ![4 * (c[2] - 1)] = 43]}}
    [] c[1] = "repeat" -> {[op |-> "ParseMany", b |-> b, n |-> NLit(c[2])] : b \in {<<>>, <<49>>, <<Minus, 50>>, ManyDigits(9), <<49, 50, 51, Comma>>, <<Comma, Minus, 52, Comma, 53>>, ManyDigits(100), <<54, Minus>>, <<Minus>>}}
    [] c[1] = "digits" -> LET s == ManyDigits(c[2]) IN UNION {Both(b) : b \in {s, <<Minus>> \o s, s \o <<Comma>> \o s, [s EXCEPT ![c[2]] = 97], [i \in 1..c[2] |-> 48], Append([i \in 1..c[2] |-> 48], 49)}}
    [] c[1] = "long" -> LET s == RandText(c[2], NInt(NRand(Seed, 11 * c[2], NLit(6))))
                        IN  UNION {Both(b) : b \in {s} \cup (IF s = <<>> THEN {} ELSE Spoil(s, c[2]))}

(*---- histories: arguments that agree in part, the same argument objects, results kept or written into ----*)
HistNum(j) ==
  LET k == 1 + NInt(NRand(Seed, 13000000 + 5 * j, NLit(300))) x == NRand(Seed, 13000001 + 5 * j, NPow(NLit(2), k)) t(b) == NPow(NLit(2), b) IN
  <<x, NAdd(x, t(64)), NNeg(x), NAdd(x, t(32)), x, NLit(0), NAdd(x, t(63)), NLit(-1), NAdd(x, NLit(1)), NAdd(x, t(8)), NAdd(x, t(256)), NLit(255), x>>
HistBytes(j) == LET b == RandBytes(4000 + j) IN <<b, <<0>> \o b, <<255>> \o b, b, b \o <<0>>, b \o b, <<128>>, <<0>>, b>>
HistTexts(j) ==
  LET s == RandText(5000 + j, 2) IN
  <<s, <<Comma>> \o s, <<>>, s \o <<Comma>>, <<48>>, <<Minus, 48>>, <<Comma, Comma>>, s \o <<Minus>>, <<48, Comma, 49>>, <<>>, <<Minus, 49>>, <<49>>, <<Comma>>, s>>
Hist(f, j) ==
  LET one(s) == [i \in 1..Len(s) |-> [op |-> f, b |-> s[i]]] IN
  CASE f = "ToBytes" -> LET s == HistNum(j) IN [i \in 1..Len(s) |-> [op |-> f, x |-> s[i]]]
    [] f \in {"FromBytes", "Flip"} -> one(HistBytes(j))
    [] f \in {"Parse", "Convert", "Base10"} -> one(HistTexts(j))

\* the calls of two histories, made at the same time
Meet(f, g) == LET RECURSIVE go(_) go(j) == IF j = 0 THEN <<>> ELSE <<Together(Hist(f, 40 + j) \o Hist(g, 50 + j))>> \o go(j - 1) IN go(IF Thorough THEN 5 ELSE 1)
Chunks ==
  IF Part = "C30" THEN {<<"together", f, g>> : f \in {"ToBytes", "FromBytes", "Parse", "Convert"}, g \in {"ToBytes", "FromBytes", "Parse", "Convert"}} ELSE
  {<<"hist", f, j, m>> : f \in (IF Part = "C24" THEN {"ToBytes", "FromBytes", "Flip"} ELSE {"Parse", "Convert", "Base10"}), j \in 1..(IF Thorough THEN 100 ELSE 10), m \in Modes} \cup
  IF Part = "C24"
  THEN {<<"pow", k>> : k \in 0..KMax} \cup {<<"rand", i>> : i \in 1..NRandom} \cup {<<"byte", b>> : b \in 0..255}
       \cup {<<"huge", k>> : k \in {511, 512, 1024, 2048, 4096, 8191, 16384}}
       \cup {<<"small", i>> : i \in -12..11} \cup {<<"edge", b>> : b \in Edge}
  ELSE {<<"text", b>> : b \in Alphabet} \cup {<<"limit", k>> : k \in LimitExp} \cup {<<"one", b>> : b \in 0..255}
       \cup {<<"many", n>> : n \in {16, 64, 100, 257, 1000}} \cup {<<"repeat", n>> : n \in {1, 2, 3, 127, 128, 255, 256, 257, 1023, 4096, 32768, 65535, 65536, 70000}} \cup {<<"digits", n>> : n \in {77, 155, 309, 400, 1233, 3000}}
       \cup {<<"long", i>> : i \in 1..(IF Thorough THEN 400 ELSE 40)}

Init == chunk \in Chunks /\ op = None
Next == op = None /\ chunk' = chunk /\ op' \in (IF chunk[1] = "hist" THEN {<<Mode(chunk[4])>> \o Hist(chunk[2], chunk[3])}
                                                ELSE IF chunk[1] = "together" THEN {Meet(chunk[2], chunk[3])} ELSE {<<o>> : o \in Ops(chunk)})
Out == op = None \/ Emit(op)
=============================================================================
