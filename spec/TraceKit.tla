------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Reading recorded executions and writing behaviours.  A recorded         *)
(* execution is {"tid":..,"events":[..]}; an event is the operation that   *)
(* was performed together with "res", what the real code answered.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, Meet

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)
Events(t) == Traces[t].events
Seed == IOEnv.VERIF_SEED
Thorough == IOEnv.VERIF_TIER = "thorough"

\* the operation t.l was answered in a way the specification does not allow
Reject(t, l, want) ==
  PrintT("@@REJECT " \o ToJson([tid |-> Traces[t].tid, l |-> l, want |-> want]))

\* a behaviour to be replayed on the real code
Emit(ops) == PrintT("@@SCRIPT " \o ToJson(ops))
\* how the caller treats arguments and results from now on: the same objects with other values, every result kept and
\* looked at again after every later call, or results written into before the next call
Modes == {"reuse", "keep", "scribble"}
Mode(m) == [op |-> "Mode", t |-> "M", m |-> m]
=============================================================================
