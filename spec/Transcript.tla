----------------------------- MODULE Transcript -----------------------------
(***************************************************************************)
(* Fiat-Shamir hashing as documented by the library: SHA-256 over decimal  *)
(* texts.  Only meaningful at real size (java/Transcript.java); in the     *)
(* exhaustive configurations challenges are chosen by the verifier.        *)
(***************************************************************************)
EXTENDS Secp, Sequences, TLC

ChHash(texts) == NLit(0)                  \* SHA-256 of the concatenation, as an unsigned number
ChSigned(texts) == NLit(0)                \* the same digest read as a two's complement number
XY(p) == ""                               \* decimal x followed by decimal y
PText(p) == ""                            \* P256(x,y)
Dec(x) == ""                              \* decimal text of a number
TextDigest(texts) == ""                   \* short identification of a list of texts
GensRep(g, h, gg, hh) == <<g, h, gg, hh>>  \* identifies a list of generators
NameH == "H"
NameU == "U"
NameGg(i) == "g" \o ToString(i)
NameHh(i) == "h" \o ToString(i)
PIsInf(p) == p = PInf
POk(p) == TRUE                            \* a point of the curve with reduced coordinates, or infinity

HashBP(ps) ==
  LET ts == [i \in 1..Len(ps) |-> XY(ps[i])]
      y == ChHash(ts)
  IN  <<y, ChHash(Append(ts, Dec(y)))>>
=============================================================================
