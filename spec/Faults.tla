------------------------------- MODULE Faults -------------------------------
(* What sessions say about random sources that fail (see module Draws). *)
EXTENDS Naturals, Sequences

\* An operation was repeated with a random source that fails at each of its reads (module Draws): then nothing is released
\* and what follows is as if it had not happened, except where a retry got the same numbers in the end. In pieces the
\* same numbers give the same result.
FailStop(e) ==
  LET r == e.res IN
  /\ r.made /\ r.reads >= 1 /\ r.oks = e.base
  /\ \A i \in DOMAIN r.odd : r.odd[i].once /\ r.odd[i].made /\ r.odd[i].same /\ (r.odd[i].then => r.odd[i].oks = e.base)
  /\ \A i \in DOMAIN r.slow : r.slow[i]

FailAt(o, then, base, want, step) == [op |-> "Fail", o |-> o, then |-> then, base |-> base, want |-> want, step |-> step]
=============================================================================
