------------------------------- MODULE CcsTrace -------------------------------
(* A recorded session with ccs08 and bbsignatures is a run of CcsSession. *)
EXTENDS CcsSession, TraceKit
VARIABLES t, l, ok, env

Init == t \in 1..NTraces /\ l = 0 /\ ok = TRUE /\ env = EmptyEnv
Next == /\ ok /\ l < Len(Events(t))
        /\ t' = t
        /\ LET e == Events(t)[l + 1]
           IN  IF Ok(e) /\ Good(env, e)
               THEN l' = l + 1 /\ ok' = TRUE /\ env' = After(env, e)
               ELSE Reject(t, l + 1, Expected(env, e)) /\ l' = l /\ ok' = FALSE /\ env' = env
=============================================================================
