----------------------------- MODULE ArithTrace -----------------------------
(* Every recorded call must have returned what the specification says.     *)
EXTENDS ModArith, TraceKit
VARIABLES t, l, ok

Init == t \in 1..NTraces /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Events(t))
        /\ t' = t
        /\ LET e == Events(t)[l + 1]
               want == IF e.op = "Together" THEN [rs |-> [i \in DOMAIN e.ops |-> ArithResult(e.ops[i])]] ELSE ArithResult(e)
           IN  IF e.res = want THEN l' = l + 1 /\ ok' = TRUE
               ELSE Reject(t, l + 1, want) /\ l' = l /\ ok' = FALSE
=============================================================================
