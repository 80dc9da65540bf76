------------------------------ MODULE ArithMC ------------------------------
(***************************************************************************)
(* The arithmetic specification against first principles, exhaustively     *)
(* over small numbers.                                                     *)
(***************************************************************************)
EXTENDS ModArith
CONSTANTS MaxM, MaxX, MaxE, MaxU, MaxL, VLen

VARIABLES kind, arg
Vecs(n) == [1..n -> (0 - 1)..(SmallOrder)]

Init ==
  \/ kind = "modC" /\ arg \in 1..MaxM
  \/ kind = "decC" /\ arg \in (1..MaxU) \X (0..MaxL)
  \/ kind = "vecC" /\ arg \in UNION {Vecs(n) : n \in 0..VLen}
Next ==
  \/ kind = "modC" /\ kind' = "mod" /\ \E x \in (0 - MaxX)..MaxX, e \in (0 - MaxE)..MaxE : arg' = <<x, e, arg>>
  \/ kind = "decC" /\ kind' = "dec"
       /\ \E x \in (0 - MaxX * 10)..(NPow(arg[1], arg[2]) + MaxX) : arg' = <<x, arg[1], arg[2]>>
  \/ kind = "vecC" /\ kind' = "vec" /\ \E b \in Vecs(Len(arg)), c \in (0 - 1)..SmallOrder : arg' = <<arg, b, c>>

RECURSIVE Naive(_, _, _)
Naive(x, e, m) == IF e = 0 THEN 1 % m ELSE (x * Naive(x, e - 1, m)) % m
ModOK == kind = "mod" =>
  LET x == arg[1] e == arg[2] m == arg[3] IN
  IF e >= 0 THEN Power(x, e, m) = Naive(x, e, m)
  ELSE LET p == Naive(x, 0 - e, m)
           inv == {y \in 0..(m - 1) : (p * y) % m = 1 % m}
       IN  IF inv = {} THEN Power(x, e, m) = NilStr
           ELSE inv = {Power(x, e, m)}

DecOK == kind = "dec" =>
  LET x == arg[1] u == arg[2] l == arg[3] d == Decompose(x, u, l) IN
  /\ Len(d) = l
  /\ \A i \in DOMAIN d : d[i] \in 0..(u - 1)
  /\ Weigh(d, u) = x % NPow(u, l)                              \* the number itself if it is in range
  /\ d = Decompose(x + NPow(u, l), u, l)

VecOK == kind = "vec" =>
  LET a == arg[1] b == arg[2] c == arg[3] n == Len(arg[1]) one == [i \in 1..n |-> 1] IN
  /\ VSub(VAdd(a, b), b) = VScale(a, 1)
  /\ Inner(VAdd(a, b), b) = (Inner(a, b) + Inner(b, b)) % SmallOrder
  /\ Inner(VScale(a, c), b) = (c * Inner(a, b)) % SmallOrder
  /\ Inner(VMul(a, b), one) = Inner(a, b)
  /\ PEq(VExp(a, b), PMul(Inner(a, b), PBase))
  /\ \A i \in 1..n : Powers(c, n)[i] = Naive(c % SmallOrder, i - 1, SmallOrder)
=============================================================================
