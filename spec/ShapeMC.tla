------------------------------- MODULE ShapeMC -------------------------------
(***************************************************************************)
(* Which range proofs are complete (C11): the published verdict is defined *)
(* for every combination of missing parts, bit-lengths, numbers of rounds  *)
(* and generators of others, and is yes for the complete proof only.       *)
(* The proof is a real one (the numbers of secp256k1), so that everything  *)
(* but its shape is right.  The replayed operation "Holes" visits the same *)
(* combinations on the implementation.                                     *)
(***************************************************************************)
EXTENDS BPForge
CONSTANT N                \* bit-length of the complete proof
VARIABLE sh

Points == {"V", "A", "S", "T1", "T2", "C"}
Scalars == {"taux", "mu", "t", "a", "b"}
Honest == Build(HonestProver("1", 11 + N, N, NSub(Two(N), NLit(1))), "none")
Parts == 0..(Log2(N) + 1)
Rounds(s, k) == [i \in 1..k |-> IF s = <<>> THEN PBase ELSE s[((i - 1) % Len(s)) + 1]]
\* the values of numbers that are not reduced count as missing as well
All == Points \cup Scalars
Ns == {N, 0, 1, 2, 4, 33}
Gone0 == {[gone |-> g, off |-> "no", n |-> n, nl |-> a, nr |-> b, hole |-> "none", gens |-> k] : g \in SUBSET All, n \in Ns, a \in Parts, b \in Parts, k \in {"std", "other"}}
Odd0 == {[gone |-> g, off |-> o, n |-> n, nl |-> a, nr |-> b, hole |-> h, gens |-> k] :
           g \in {x \in SUBSET All : Cardinality(x) <= 1}, o \in {"no", "t+q", "-mu", "(0,0)"}, n \in Ns, a \in Parts, b \in Parts, h \in {"none", "l", "r"}, k \in {"std", "other", ""}}
Whole == [gone |-> {}, off |-> "no", n |-> N, nl |-> Log2(N), nr |-> Log2(N), hole |-> "none", gens |-> "std"]
Holed(s, on) == IF on /\ s # <<>> THEN [s EXCEPT ![Len(s)] = "nil"] ELSE s
Gone(s, f, x) == IF f \in s.gone THEN "nil" ELSE x
Make(s, h) ==
  [h EXCEPT !.n = s.n, !.ls = Holed(Rounds(h.ls, s.nl), s.hole = "l"), !.rs = Holed(Rounds(h.rs, s.nr), s.hole = "r"),
            !.gens = CASE s.gens = "std" -> h.gens [] s.gens = "other" -> StdGens(IF N = 1 THEN 2 ELSE 1) [] OTHER -> "",
            !.V = Gone(s, "V", @), !.A = Gone(s, "A", @), !.S = Gone(s, "S", IF s.off = "(0,0)" THEN "0,0" ELSE @), !.T1 = Gone(s, "T1", @),
            !.T2 = Gone(s, "T2", @), !.C = Gone(s, "C", @), !.taux = Gone(s, "taux", @), !.mu = Gone(s, "mu", IF s.off = "-mu" THEN NNeg(@) ELSE @),
            !.t = Gone(s, "t", IF s.off = "t+q" THEN NAdd(@, QOrd) ELSE @), !.a = Gone(s, "a", @), !.b = Gone(s, "b", @)]

Init == sh \in Gone0 \/ sh \in Odd0
Next == FALSE /\ UNCHANGED sh
\* without rounds there is nothing that could be missing in one
Same(s) == s = Whole \/ (s.nl = 0 /\ s.hole = "l" /\ [s EXCEPT !.hole = "none"] = Whole) \/ (s.nr = 0 /\ s.hole = "r" /\ [s EXCEPT !.hole = "none"] = Whole)
Holds == Accepts(Make(sh, Honest)) = Same(sh)
=============================================================================
