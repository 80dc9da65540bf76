------------------------------ MODULE CodecMC ------------------------------
(***************************************************************************)
(* Exhaustive check of the codec specification on native integers: every   *)
(* number, every short byte string and every short text is one state,      *)
(* reached in two steps so that TLC's workers share the work.              *)
(***************************************************************************)
EXTENDS Codec
CONSTANTS Chunks, Edge, ParseAlphabet, ParseLen

VARIABLES kind, arg

Init ==
  \/ kind = "numChunk" /\ arg \in (0 - Chunks)..Chunks
  \/ kind = "bytesChunk" /\ arg \in 0..255
  \/ kind = "textChunk" /\ arg \in ParseAlphabet \cup {0}

Next ==
  \/ kind = "numChunk" /\ kind' = "num" /\ arg' \in (256 * arg)..(256 * arg + 255)
  \/ kind = "bytesChunk" /\ kind' = "bytes"
       /\ arg' \in {<<arg>>} \cup {<<arg, b>> : b \in 0..255} \cup {<<arg, b, c>> : b \in Edge, c \in Edge}
  \/ kind = "textChunk" /\ kind' = "text"
       /\ arg' \in IF arg = 0 THEN {<<>>}
                   ELSE UNION {{<<arg>> \o s : s \in [1..n -> ParseAlphabet]} : n \in 0..(ParseLen - 1)}

\* decoding inverts encoding, and no shorter string represents the number
NumOK == kind = "num" =>
  /\ Signed(ToBytes(arg)) = arg
  /\ Len(ToBytes(arg)) > 1 => ~ Fits(arg, Len(ToBytes(arg)) - 1)

\* a string is the encoding of its value exactly if it has no redundant leading byte
Redundant(b) == Len(b) > 1 /\ ((b[1] = 0 /\ b[2] < 128) \/ (b[1] = 255 /\ b[2] >= 128))
BytesOK == kind = "bytes" =>
  /\ (ToBytes(Signed(arg)) = arg) <=> ~ Redundant(arg)
  \* the inverted string represents -x - 1
  /\ Inverted(Inverted(arg)) = arg /\ Signed(Inverted(arg)) = 0 - Signed(arg) - 1

\* the parser accepts exactly the rendered lists, and inverts rendering
RECURSIVE Join(_)
Join(fs) == IF Len(fs) = 1 THEN Head(fs) ELSE Head(fs) \o <<Comma>> \o Join(Tail(fs))
TextOK == kind = "text" =>
  /\ Join(Fields(arg)) = arg
  /\ \A i \in DOMAIN Fields(arg) : \A j \in DOMAIN Fields(arg)[i] : Fields(arg)[i][j] # Comma
  /\ ParseOK(arg) => Len(ParseValue(arg)) = 1 + Cardinality({i \in DOMAIN arg : arg[i] = Comma})
  /\ (\E i \in DOMAIN arg : arg[i] \notin Digits \cup {Comma, Minus}) => ~ ParseOK(arg)
  /\ (\E i \in DOMAIN arg : arg[i] = Minus /\ i > 1 /\ arg[i - 1] # Comma) => ~ ParseOK(arg)
\* reading lists one after the other is reading the joined list
Joined == kind = "text" =>
  /\ ParseOK(arg \o <<Comma>> \o arg) = ParseOK(arg)
  /\ ParseOK(arg) => ParseValue(arg \o <<Comma>> \o arg) = ParseValue(arg) \o ParseValue(arg)
\* a single number is a list of one field, but for the sign and the empty text
Single == kind = "text" =>
  /\ IsBase10(arg) /\ Head(arg) # Plus => ParseOK(arg) /\ ParseValue(arg) = <<Base10(arg)>>
  /\ ParseOK(arg) /\ Len(Fields(arg)) = 1 /\ arg # <<>> => IsBase10(arg)
  /\ IsBase10(<<Plus>> \o arg) => Base10(<<Plus>> \o arg) = Magnitude(arg) /\ ~ ParseOK(<<Plus>> \o arg)
=============================================================================
