----------------------------- MODULE GroupsTrace -----------------------------
(* A recorded execution of the group layer is a run of the register machines. *)
EXTENDS Groups, Points, Hashes, TraceKit
VARIABLES t, l, ok, rg

Init == t \in 1..NTraces /\ l = 0 /\ ok = TRUE /\ rg = InitRegs

Stateless == {"D", "H", "C", "K", "M", "T", "X"}

RECURSIVE Want(_)
Want(e) ==
  IF e.t = "M" THEN [mode |-> TRUE]
  ELSE IF e.t = "T" THEN [rs |-> [i \in DOMAIN e.ops |-> Want(Sub(e, i))]]        \* each as if it were alone (C30)
  ELSE IF e.t = "X" THEN View(rg) @@ [ret |-> HashResult(rg, e)]
  ELSE IF e.t \in Stateless THEN [ret |-> PointResult(e)]
  ELSE LET rk == IF e.op = "Random" /\ "k" \in DOMAIN e.res THEN e.res.k ELSE NLit(0)
           after == Apply(rg, e, rk)
           base == View(after) @@ [ret |-> Ret(rg, e)]
       IN  IF e.op = "Random" THEN base @@ [k |-> IF NLt(NLit(0), rk) /\ NLt(rk, ord(e.t)) THEN rk ELSE "in [1, order)"]
           ELSE IF e.op = "Same" THEN base @@ [m |-> SameMatrix(rg[e.t], e.t)]
           ELSE base
After(e) == IF e.t \in Stateless THEN rg
            ELSE Apply(rg, e, IF e.op = "Random" THEN e.res.k ELSE NLit(0))

Next == /\ ok /\ l < Len(Events(t))
        /\ t' = t
        /\ LET e == Events(t)[l + 1]
               want == Want(e)
           IN  IF e.res = want THEN l' = l + 1 /\ ok' = TRUE /\ rg' = After(e)
               ELSE Reject(t, l + 1, want) /\ l' = l /\ ok' = FALSE /\ rg' = rg
=============================================================================
