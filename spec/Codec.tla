------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The byte conversion package: two's complement (C24) and the parser of   *)
(* comma separated integer lists (C25).  Byte strings are sequences over   *)
(* 0..255, numbers are those of module Num.                                *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

(*------------------------------ two's complement --------------------------*)
RECURSIVE Unsigned(_)
Unsigned(b) == IF b = <<>> THEN NLit(0)
               ELSE NAdd(NMul(NLit(256), Unsigned(SubSeq(b, 1, Len(b) - 1))), NLit(b[Len(b)]))

\* the integer a non-empty byte string represents
Signed(b) == IF b[1] >= 128 THEN NSub(Unsigned(b), NPow(NLit(2), 8 * Len(b))) ELSE Unsigned(b)

\* x fits into n bytes
Fits(x, n) == /\ NLe(NNeg(NPow(NLit(2), 8 * n - 1)), x)
              /\ NLt(x, NPow(NLit(2), 8 * n - 1))
RECURSIVE Width(_, _)
Width(x, n) == IF Fits(x, n) THEN n ELSE Width(x, n + 1)

RECURSIVE BigEndian(_, _)
BigEndian(u, n) == IF n = 0 THEN <<>>
                   ELSE Append(BigEndian(NDiv(u, NLit(256)), n - 1), NInt(NMod(u, NLit(256))))

\* the shortest byte string that represents x
ToBytes(x) == LET n == Width(x, 1) IN BigEndian(NMod(x, NPow(NLit(2), 8 * n)), n)

(*---------------------------------- parser --------------------------------*)
Comma == 44
Minus == 45
Digits == 48..57

RECURSIVE Fields(_)
Fields(s) ==        \* the fields between the commas; <<>> has one empty field
  IF s = <<>> THEN << <<>> >>
  ELSE LET rest == Fields(Tail(s))
       IN  IF Head(s) = Comma THEN << <<>> >> \o rest
           ELSE << <<Head(s)>> \o Head(rest) >> \o Tail(rest)

IsNumber(f) ==
  \/ f = <<>>
  \/ LET d == IF Head(f) = Minus THEN Tail(f) ELSE f
     IN  d # <<>> /\ \A i \in DOMAIN d : d[i] \in Digits

RECURSIVE Magnitude(_)
Magnitude(d) == IF d = <<>> THEN NLit(0)
                ELSE NAdd(NMul(NLit(10), Magnitude(SubSeq(d, 1, Len(d) - 1))), NLit(d[Len(d)] - 48))

Number(f) == IF f # <<>> /\ Head(f) = Minus THEN NNeg(Magnitude(Tail(f))) ELSE Magnitude(f)

ParseOK(s) == LET fs == Fields(s) IN \A i \in DOMAIN fs : IsNumber(fs[i])
ParseValue(s) == LET fs == Fields(s) IN [i \in DOMAIN fs |-> Number(fs[i])]

(*------------------- a single number in decimal, all bits inverted --------*)
Plus == 43
Unsign(f) == IF f # <<>> /\ Head(f) \in {Plus, Minus} THEN Tail(f) ELSE f
IsBase10(f) == Unsign(f) # <<>> /\ \A i \in DOMAIN Unsign(f) : Unsign(f)[i] \in Digits
Base10(f) == IF Head(f) = Minus THEN NNeg(Magnitude(Tail(f))) ELSE Magnitude(Unsign(f))
Inverted(b) == [i \in DOMAIN b |-> 255 - b[i]]

(*-------------------------- what each call returns -------------------------*)
Ok(v) == [err |-> FALSE, v |-> v, same |-> TRUE]
Fail == [err |-> TRUE, same |-> TRUE]

CodecResult(op) ==
  CASE op.op = "Mode" -> [mode |-> TRUE]
    [] op.op = "ToBytes" -> [v |-> ToBytes(op.x), same |-> TRUE]
    [] op.op = "FromBytes" -> IF op.b = <<>> THEN Fail ELSE Ok(Signed(op.b))
    [] op.op = "Parse" -> IF ParseOK(op.b) THEN Ok(ParseValue(op.b)) ELSE Fail
    [] op.op = "Convert" -> IF IsNumber(op.b) THEN Ok(Number(op.b)) ELSE Fail
    [] op.op = "Base10" -> IF IsBase10(op.b) THEN Ok(Base10(op.b)) ELSE Fail
    \* the text n times, with commas between: the list n times (CodecMC, Joined)
    [] op.op = "ParseMany" -> IF ParseOK(op.b) THEN [err |-> FALSE, v |-> ParseValue(op.b), n |-> NMul(op.n, NLit(Len(Fields(op.b)))), even |-> TRUE, same |-> TRUE] ELSE Fail
    [] op.op = "Flip" -> [v |-> Inverted(op.b), same |-> TRUE]
=============================================================================
