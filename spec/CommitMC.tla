------------------------------ MODULE CommitMC ------------------------------
(***************************************************************************)
(* Pedersen commitments g^x h^r in a group of small order in which nobody  *)
(* knows a relation between g and h: all messages and all randomness, also *)
(* negative and unreduced.                                                 *)
(***************************************************************************)
EXTENDS Secp
VARIABLES x, r, st

K == (0 - SmallOrder)..(2 * SmallOrder)
C(a, b) == PMulti(<<a, b>>, <<PBase, PHash("H")>>)
Init == x \in K /\ r = 0 /\ st = 0
Next == st = 0 /\ st' = 1 /\ x' = x /\ r' \in K
Idle == st = 0
Homomorphic == Idle \/ \A a \in K, b \in K : PAdd(C(x, r), C(a, b)) = C(x + a, r + b) /\ PMul(a, C(x, r)) = C(a * x, a * r)
Binding == Idle \/ \A a \in K, b \in K : C(x, r) = C(a, b) <=> (x - a) % SmallOrder = 0 /\ (r - b) % SmallOrder = 0
\* whoever knows the logarithm k of h opens a commitment in any way: why every setup draws its own second base
Trapdoor == Idle \/ \A k \in 1..(SmallOrder - 1), a \in 0..(SmallOrder - 1) :
              \E b \in 0..(SmallOrder - 1) : (x + k * r) % SmallOrder = (a + k * b) % SmallOrder
=============================================================================
