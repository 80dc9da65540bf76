------------------------------- MODULE Hashes -------------------------------
(***************************************************************************)
(* The hash functions challenges come from (C31), of the elements that the *)
(* registers of the group machines hold: SHA-256 over the texts of all     *)
(* arguments in their order, read as a signed number (Hash, HashSet,       *)
(* CalculateHash) or an unsigned one (HashBP).  The texts depend on the    *)
(* elements only, not on how they were computed.                           *)
(***************************************************************************)
EXTENDS Groups, Transcript

TTexts(rg, l) == [i \in DOMAIN l |-> GTText(rg["GT"][l[i]])]
STexts(rg, l) == [i \in DOMAIN l |-> G2Text(rg["G2"][l[i]])]
NumHash(xs) == NLit(0)      \* of the shortest two's complement bytes of the numbers, signed    (Java at real size)

HashResult(rg, op) ==
  CASE op.op \in {"Hash", "HashSet"} -> ChSigned(TTexts(rg, op.l) \o STexts(rg, op.s))
    [] op.op = "HashBP" -> HashBP([i \in DOMAIN op.l |-> PMul(rg["P"][op.l[i]], PBase)])
    [] op.op = "CalculateHash" -> NumHash(op.xs)
\* HashBP needs the coordinates of its arguments
Hashable(rg, op) ==
  CASE op.op \in {"Hash", "HashSet"} -> (\A i \in DOMAIN op.l : rg["GT"][op.l[i]] # Unset) /\ (\A i \in DOMAIN op.s : rg["G2"][op.s[i]] # Unset)
    [] op.op = "HashBP" -> \A i \in DOMAIN op.l : ~ Zero(rg["P"][op.l[i]])
    [] OTHER -> TRUE
=============================================================================
