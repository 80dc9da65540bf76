-------------------------------- MODULE Meet --------------------------------
(* Operations performed at the same time, each in a goroutine of its own (C30, module Scratch). *)
EXTENDS Naturals, Sequences, TLC

Together(os) == [op |-> "Together", t |-> "T", ops |-> os]
\* the i-th of them with its answer
Sub(e, i) == e.ops[i] @@ [res |-> e.res.rs[i], together |-> TRUE]
=============================================================================
