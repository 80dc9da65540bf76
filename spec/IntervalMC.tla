----------------------------- MODULE IntervalMC -----------------------------
(***************************************************************************)
(* Why two proofs of membership in [0, U^l) about x - a and x - b + U^l    *)
(* with linked commitments decide a <= x < b: all intervals, all secrets   *)
(* known modulo the group order M only (the commitment does not fix more). *)
(* With U = 2, l = the size of the inner proofs it is the statement about  *)
(* the generic bulletproofs too (a <= b, b - a <= 2^l).                    *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Reach, M, MaxU, MaxL
VARIABLES a, b, u, l

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
\* a residue is the commitment of a number of [0, U^l)
Small(x, w) == x % M < w
Decides ==
  LET w == Pow(u, l) IN
  (a <= b /\ w >= b - a /\ 2 * w <= M) =>
    \A x \in 0..(M - 1) :
      (Small(x - a, w) /\ Small(x - b + w, w)) <=> \E y \in a..(b - 1) : y % M = x
\* where the span is too short or the order too small the construction is not sound or not complete: the
\* conditions of a correct setup are needed
Init == a \in (-Reach)..Reach /\ b = 0 /\ u = 0 /\ l = 0
Next == u = 0 /\ a' = a /\ b' \in (-Reach)..Reach /\ u' \in 2..MaxU /\ l' \in 0..MaxL
DecidesInv == u = 0 \/ Decides
\* the smallest l of a setup (used by the generators)
=============================================================================
