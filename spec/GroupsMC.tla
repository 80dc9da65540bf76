------------------------------ MODULE GroupsMC ------------------------------
(***************************************************************************)
(* The register machines over groups of small prime order, all reachable   *)
(* states: group laws, independence of aliasing, bilinearity.              *)
(***************************************************************************)
EXTENDS Groups
CONSTANTS Used          \* the banks of this configuration

VARIABLE rg

Scalars == (0 - 2)..(SmallR + 1)
Regs == 1..NReg
OpsOf(t) ==
  {[t |-> t, op |-> "Base", d |-> d, k |-> k] : d \in Regs, k \in Scalars}
  \cup {[t |-> t, op |-> o, d |-> d, a |-> a, k |-> k] : o \in {"Mul"}, d \in Regs, a \in Regs, k \in Scalars}
  \cup {[t |-> t, op |-> o, d |-> d, a |-> a] : o \in {"Neg", "Copy"} \cup (IF t = "P" THEN {"Double"} ELSE {}), d \in Regs, a \in Regs}
  \cup {[t |-> t, op |-> o, d |-> d, a |-> a, b |-> b] : o \in (IF t = "P" THEN {"Add", "Multiply"} ELSE {"Add"}), d \in Regs, a \in Regs, b \in Regs}
  \cup (IF t = "GT" /\ Used # {"GT"} THEN {[t |-> t, op |-> "Pair", d |-> d, a |-> a, b |-> b] : d \in Regs, a \in Regs, b \in Regs} ELSE {})
AllOps == UNION {OpsOf(t) : t \in Used}

Init == rg = InitRegs
Next == \E op \in AllOps : Enabled(rg, op) /\ rg' = Apply(rg, op, 0)
Spec == Init /\ [][Next]_rg

TypeOK == \A t \in Banks, i \in Regs : rg[t][i] \in {Unset} \cup 0..(ord(t) - 1)
Def(t) == {i \in Regs : rg[t][i] # Unset}
val(t, o, a, b, k) == Value(rg, [t |-> t, op |-> o, a |-> a, b |-> b, k |-> k, d |-> 1])

Laws == \A t \in Used : \A a \in Def(t), b \in Def(t) :
  /\ val(t, "Add", a, b, 0) = val(t, "Add", b, a, 0)                                     \* commutative
  /\ (rg[t][a] + val(t, "Neg", a, a, 0)) % ord(t) = 0                                    \* inverse
  /\ val(t, "Add", a, a, 0) = val(t, "Mul", a, a, 2)
  /\ \A k \in Scalars : val(t, "Mul", a, b, k) = val(t, "Mul", a, b, k + ord(t))         \* order
  /\ \A k \in Scalars : (val(t, "Mul", a, b, k) + val(t, "Mul", b, b, k)) % ord(t)
                        = (k * val(t, "Add", a, b, 0)) % ord(t)                          \* distributive

Bilinear == {"G1", "G2", "GT"} \subseteq Used => \A a \in Def("G1"), b \in Def("G2"), c \in Def("G1"), k \in Scalars :
  /\ (val("GT", "Pair", a, b, 0) + val("GT", "Pair", c, b, 0)) % SmallR = (val("G1", "Add", a, c, 0) * rg["G2"][b]) % SmallR
  /\ (k * val("GT", "Pair", a, b, 0)) % SmallR = (val("G1", "Mul", a, a, k) * rg["G2"][b]) % SmallR
  /\ (val("GT", "Pair", a, b, 0) = 0) <=> (rg["G1"][a] = 0 \/ rg["G2"][b] = 0)            \* non-degenerate
  /\ Ret(rg, [t |-> "PC", l |-> <<>>]) = "true"
  /\ Ret(rg, [t |-> "PC", l |-> <<<<a, b>>, <<c, b>>>>]) = Bool(val("G1", "Add", a, c, 0) = 0 \/ rg["G2"][b] = 0)

\* an operation changes its receiver at most, and it does not matter which register receives the result
OnlyReceiver == [][\E op \in AllOps :
  /\ Enabled(rg, op)
  /\ \A t \in Banks, i \in Regs : <<t, i>> = <<op.t, op.d>> \/ rg'[t][i] = rg[t][i]
  /\ \A d \in Regs : Apply(rg, [op EXCEPT !.d = d], 0)[op.t][d] = rg'[op.t][op.d]]_rg
=============================================================================
