--------------------------------- MODULE Bil ---------------------------------
(***************************************************************************)
(* The bilinear groups as the CCS08 schemes use them, on elements.  At     *)
(* real size (java/Bil.java) an element is its encoding, in hexadecimal,   *)
(* and the operators below are computed on alt_bn128.  In the exhaustive   *)
(* configurations the order is the small prime SmallR, an element of G1 is *)
(* its exponent, and G2 and GT are the free groups over g and a second     *)
(* base H nobody knows the logarithm of: an element is a pair of exponents.*)
(***************************************************************************)
EXTENDS Bn, Sequences

RECURSIVE SumUp(_, _, _)
SumUp(ks, es, j) ==
  IF ks = <<>> THEN 0
  ELSE ((Head(ks) * (IF j = 0 THEN Head(es) ELSE Head(es)[j])) + SumUp(Tail(ks), Tail(es), j)) % SmallR

B1Base == 1
B1Multi(ks, es) == SumUp(ks, es, 0)                          \* product of powers
B2Base == <<1, 0>>
B2Zero == <<0, 0>>
B2Second == <<0, 1>>                                          \* the second base of the small configurations
B2Multi(ks, es) == <<SumUp(ks, es, 1), SumUp(ks, es, 2)>>
BTBase == <<1, 0>>                                            \* e(g1, g2)
BTZero == <<0, 0>>
BTMulti(ks, es) == <<SumUp(ks, es, 1), SumUp(ks, es, 2)>>
BPair(a, b) == <<(a * b[1]) % SmallR, (a * b[2]) % SmallR>>
\* only used at real size
B2TextOf(e) == ""
BTTextOf(e) == ""
=============================================================================
