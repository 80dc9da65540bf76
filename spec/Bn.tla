--------------------------------- MODULE Bn ---------------------------------
(***************************************************************************)
(* The bilinear groups of the CCS08 schemes.  An element is given by its   *)
(* exponent; the operators below are its encodings.  In the real-size      *)
(* configurations java/Bn.java computes them on alt_bn128; here the group  *)
(* order is the small prime SmallR and an element is its own encoding.     *)
(***************************************************************************)
EXTENDS Num
CONSTANT SmallR

ROrd == NLit(SmallR)
G1Enc(k) == k % SmallR
G2Enc(k) == k % SmallR
GTEnc(k) == k % SmallR
Short(e) == e
\* only used at real size
BnP == 0
G2Text(k) == ""
GTText(k) == ""
G1Valid(h) == TRUE
G2Valid(h) == TRUE
GTValid(h) == TRUE
G1Lift(x) == ""
TwistLift(x, y) == ""
HexWord(x) == ""
HexCat(s) == ""
HexGet(h, i) == 0
HexSet(h, i, x) == ""
HexCut(h, n) == ""
\* exponents after s such that every word of the encoding in t begins with a zero byte for n of them (with two for G1)
Shorts(t, s, n) == <<>>
GTScale(h, k) == ""
=============================================================================
