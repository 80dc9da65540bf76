------------------------------- MODULE BPTrace -------------------------------
(* A recorded session with the bulletproofs package is a run of BPSession. *)
EXTENDS BPSession, TraceKit
VARIABLES t, l, ok, env

Init == t \in 1..NTraces /\ l = 0 /\ ok = TRUE /\ env = EmptyEnv
Next == /\ ok /\ l < Len(Events(t))
        /\ t' = t
        /\ LET e == Events(t)[l + 1]
           IN  IF ~ ("panic" \in DOMAIN e.res \/ "hang" \in DOMAIN e.res \/ "crash" \in DOMAIN e.res) /\ Good(env, e)
               THEN l' = l + 1 /\ ok' = TRUE /\ env' = After(env, e)
               ELSE Reject(t, l + 1, Expected(env, e)) /\ l' = l /\ ok' = FALSE /\ env' = env
=============================================================================
