-------------------------------- MODULE Secp --------------------------------
(***************************************************************************)
(* The prime-order group of the range proofs.  In the real-size            *)
(* configurations java/Secp.java replaces the operators by secp256k1: a    *)
(* point is the string "x,y" in decimal, or "inf".  The definitions below  *)
(* are the generic group the exhaustive configurations use: a point is its *)
(* vector of exponents over the independent generators Gens, so that two   *)
(* points are equal exactly if no adversary can exhibit a relation between *)
(* the generators ("algebraic group" reading of the discrete logarithm     *)
(* assumption), and the order QOrd is a small prime.                       *)
(***************************************************************************)
EXTENDS Num, FiniteSets
CONSTANTS SmallOrder, Gens

QOrd == NLit(SmallOrder)                  \* the group order
PInf == [g \in Gens |-> 0]
PBase == [g \in Gens |-> IF g = "G" THEN 1 ELSE 0]
PHash(name) == [g \in Gens |-> IF g = name THEN 1 ELSE 0]    \* hash-to-point
PAdd(a, b) == [g \in Gens |-> (a[g] + b[g]) % QOrd]
PNeg(a) == [g \in Gens |-> (0 - a[g]) % QOrd]
PMul(k, a) == [g \in Gens |-> (k * a[g]) % QOrd]
PEq(a, b) == a = b
RECURSIVE PMulti(_, _)
PMulti(ks, ps) == IF ks = <<>> THEN PInf         \* sum of ks[i] * ps[i]
                  ELSE PAdd(PMul(Head(ks), Head(ps)), PMulti(Tail(ks), Tail(ps)))
=============================================================================
