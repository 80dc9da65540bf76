-------------------------------- MODULE CcsMC --------------------------------
(***************************************************************************)
(* The sigma protocol of module Ccs over a group of small prime order, all *)
(* keys, secrets, draws and challenges: completeness, special soundness    *)
(* (two answers give a signature on the committed digits), rejection of     *)
(* every single replacement, and perfect honest-verifier zero knowledge.   *)
(***************************************************************************)
EXTENDS Ccs, FiniteSets
CONSTANTS U, L, Goal

VARIABLES key, run

Z == 0..(SmallR - 1)
Vec(S) == [1..L -> S]
Digits == 0..(U - 1)
Pm(x) == [y |-> PubKey(x), H |-> B2Second, u |-> U, l |-> L,
          sigs |-> [d \in {d \in Digits : Signable(x, d)} |-> Sig(x, d)]]
Keys == {x \in Z : \A d \in Digits : Signable(x, d)}
P == Pm(key)
\* with l digits
HoldsWith(pf, c) == CondD(P, pf, c) /\ \A i \in 1..L : CondZ(pf, i) /\ CondA(P, pf, c, i)
Num0(d) == Weighted(d, U, 1)

\* complete: run is a prover's secrets and draws together with a challenge
Secrets == [d : Vec(Digits), r : Z, m : Z, v : Vec(Z \ {0}), s : Vec(Z), t : Vec(Z), c : Z]
Prover(k) == k @@ [x |-> Num0(k.d), sg |-> TLCEval([i \in 1..L |-> P.sigs[k.d[i]]])]
Completeness == Goal = "complete" => HoldsWith(HonestWith(P, Prover(run), run.c), run.c)

\* sound: run is everything a prover sends before the challenge; V is given by its exponents over g and H
G2s == {<<i, j>> : i \in Z, j \in Z}
\* only V_1, a_1 and D, C are free (the digits are alike); with L = 1 this is everything
Firsts == [V : G2s \ {B2Zero}, a : G2s, C : G2s, D : G2s]
Answers(f, c) ==         \* the responses that are accepted
  {z \in [zsig : Z, zv : Z, zr : Z] :
    LET pf == [V |-> <<f.V>>, a |-> <<f.a>>, C |-> f.C, D |-> f.D, c |-> c, zr |-> z.zr, zsig |-> <<z.zsig>>, zv |-> <<z.zv>>] IN
    CondD(P, pf, c) /\ CondZ(pf, 1) /\ CondA(P, pf, c, 1)}
Soundness == Goal = "sound" =>
  \A c1 \in Z, c2 \in Z : c1 < c2 =>
    \A z1 \in Answers(run, c1), z2 \in Answers(run, c2) :
      LET k == BInv(BSub(c1, c2))
          m == BNeg(BMul(BSub(z1.zsig, z2.zsig), k))          \* the digit
          r == BNeg(BMul(BSub(z1.zr, z2.zr), k))
          w == BNeg(BMul(BSub(z1.zv, z2.zv), k))              \* V = signature(m)^w
          \* a signature on m, or (w = 0) the secret key itself
      IN  run.C = Commit(P, m, r) /\ IF w # 0 THEN SigOK(P.y, m, B2Multi(<<BInv(w)>>, <<run.V>>)) ELSE PubKey(BNeg(m)) = P.y

\* hidden: for every challenge the transcripts of two members are distributed alike: each is hit by equally many draws
Transcripts(d, r, c) ==
  LET draws == [m : Z, v : Vec(Z \ {0}), s : Vec(Z), t : Vec(Z)]
      f == [k \in draws |-> HonestWith(P, Prover(k @@ [d |-> d, r |-> r]), c)]
  IN  f
\* the commitment is the same for both: x + h r with the logarithm h of H
Hiding == Goal = "hidden" =>
  \A d2 \in Vec(Digits) :
    LET f1 == Transcripts(run.d, run.r, run.c)
        f2 == Transcripts(d2, run.r, run.c)
        strip(pf) == [pf EXCEPT !.C = 0, !.D = 0]              \* D is determined by the rest
        img(f) == {strip(f[k]) : k \in DOMAIN f}
    IN  img(f1) = img(f2) /\ Cardinality(img(f1)) = Cardinality(DOMAIN f1)      \* both uniform on the same set

\* tamper: another value of one component of an accepted proof is rejected under the same challenge, except that a
\* zero challenge does not look at C, and V is not looked at if y^c = g^zsig (neither can be arranged: c comes after V, C)
Others(pf) ==
  {[pf EXCEPT !.D = e] : e \in G2s \ {pf.D}} \cup (IF run.c = 0 THEN {} ELSE {[pf EXCEPT !.C = e] : e \in G2s \ {pf.C}})
  \cup UNION {{[pf EXCEPT !.a[i] = e] : e \in G2s \ {pf.a[i]}} : i \in 1..L}
  \cup UNION {IF BMul(key, run.c) = pf.zsig[i] THEN {} ELSE {[pf EXCEPT !.V[i] = e] : e \in G2s \ {pf.V[i]}} : i \in 1..L}
  \cup {[pf EXCEPT !.zr = e] : e \in Z \ {pf.zr}}
  \cup UNION {{[pf EXCEPT !.zsig[i] = e] : e \in Z \ {pf.zsig[i]}} : i \in 1..L}
  \cup UNION {{[pf EXCEPT !.zv[i] = e] : e \in Z \ {pf.zv[i]}} : i \in 1..L}
Tampering == Goal = "tamper" => LET pf == HonestWith(P, Prover(run), run.c) IN HoldsWith(pf, run.c) /\ \A q \in Others(pf) : ~ HoldsWith(q, run.c)

Init ==
  /\ key \in Keys
  /\ run \in {[idle |-> TRUE]}
Next ==
  /\ run = [idle |-> TRUE] /\ key' = key
  /\ CASE Goal \in {"complete", "tamper"} -> run' \in Secrets
       [] Goal = "sound" -> run' \in Firsts
       [] Goal = "hidden" -> run' \in [d : Vec(Digits), r : {0, 1}, c : Z]
Idle == run = [idle |-> TRUE]
CompletenessInv == Idle \/ Completeness
SoundnessInv == Idle \/ Soundness
TamperInv == Idle \/ Tampering
HidingInv == Idle \/ Hiding
=============================================================================
