------------------------------ MODULE TryIncMC ------------------------------
(* All candidate sequences over small fields. *)
EXTENDS TryInc, FiniteSets
CONSTANTS Fields, Tries
VARIABLES p, cand

Init == p \in Fields /\ cand = <<>>
Next == /\ cand = <<>> /\ p' = p
        /\ \E f \in [1..Tries -> (0 - p)..(2 * p)] : cand' = f
Idle == cand = <<>>
Res == FirstPoint(cand, p, 1, Tries + 1)
\* on the curve, reduced, never infinity
Lands == Idle \/ Res = <<>> \/ (Res[1] \in 0..(p - 1) /\ Res[2] \in 0..(p - 1) /\ (Res[2] * Res[2]) % p = (Res[1] * Res[1] * Res[1] + 7) % p)
\* the first candidate that can be lifted decides, and there is no point only if none can
Has(x) == \E y \in 0..(p - 1) : (y * y) % p = (x * x * x + 7) % p
First == Idle \/ LET good == {i \in 1..Tries : Has(cand[i] % p)} IN
  IF good = {} THEN Res = <<>>
  ELSE Res # <<>> /\ Res[1] = cand[CHOOSE i \in good : \A j \in good : i <= j] % p
\* a function of the residues of the candidates only
Residues == Idle \/ Res = FirstPoint([i \in 1..Tries |-> cand[i] % p], p, 1, Tries + 1)
\* the curve equation accepts exactly the points
Exact == ~ Idle \/ \A x \in 0..(p - 1), y \in 0..(p - 1) : OnEq(x, y, p) <=> (y * y - x * x * x - 7) % p = 0
=============================================================================
