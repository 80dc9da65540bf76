-------------------------------- MODULE BBMC --------------------------------
(***************************************************************************)
(* Boneh-Boyen signatures over a group of small prime order: all keys, all *)
(* messages (also unreduced and negative ones), all signature values.      *)
(***************************************************************************)
EXTENDS Ccs
VARIABLES x, m, st

Z == 0..(SmallR - 1)
Msgs == (0 - SmallR)..(2 * SmallR)
Init == x \in Z /\ m = 0 /\ st = "key"
Next == st = "key" /\ st' = "signed" /\ x' = x /\ m' \in Msgs
Idle == st = "key"
All == {<<i, j>> : i \in Z, j \in Z}           \* the elements of G2, by their exponents
\* the signature verifies ...
Verifies == Idle \/ ~ Signable(x, m) \/ SigOK(PubKey(x), m, Sig(x, m))
\* ... for this message modulo the order and this key only, and no other value does
Exactly == Idle \/ ~ Signable(x, m) \/
  /\ \A n \in Msgs : SigOK(PubKey(x), n, Sig(x, m)) <=> (n - m) % SmallR = 0
  /\ \A y \in Z : SigOK(PubKey(y), m, Sig(x, m)) <=> y = x
  /\ \A s \in All : SigOK(PubKey(x), m, s) <=> s = Sig(x, m)
\* where signing is impossible nothing verifies
None == Idle \/ Signable(x, m) \/ \A s \in All : ~ SigOK(PubKey(x), m, s)
=============================================================================
