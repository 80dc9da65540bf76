------------------------------- MODULE Scratch -------------------------------
(***************************************************************************)
(* Functions that several goroutines call at the same time (C30), at the   *)
(* granularity of single reads and writes.  Caller i wants F(Args[i]) for  *)
(* an argument of its own; the function works in three steps: it writes    *)
(* its argument to scratch memory, reads it back, computes, and returns.   *)
(* A table value is needed as well, which does not depend on the caller.   *)
(*                                                                         *)
(*   own     the scratch memory is the call's own, the table is made       *)
(*           before the first call (what the library does)                 *)
(*   locked  one scratch memory, used by one call at a time                *)
(*   pool    scratch memories are taken out of a pool and given back       *)
(*   once    the table is made by the first call that needs it, and seen   *)
(*           by others when it is complete                                 *)
(*   shared  one scratch memory for all calls                              *)
(*   early   as pool, but given back before the result is read from it     *)
(*   lazy    the table is announced before it is complete                  *)
(*   operand the function brings its argument to a normal form in place,   *)
(*           in two writes, and callers share the argument                 *)
(*                                                                         *)
(* Own, locked, pool and once answer every call as if it were alone        *)
(* (Alone); each of the others is refuted.  This is what the conformance   *)
(* checks of C30 look for in the code: the calls of a session are made at  *)
(* the same time, every answer is compared with the one the specification  *)
(* gives for the call alone, and the race detector watches the memory.     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Callers, Rounds, Discipline
VARIABLES pc, round, mem, slot, tab, ready, got, ans, lock, free, x

vars == <<pc, round, mem, slot, tab, ready, got, ans, lock, free, x>>
P == 1..Callers
Arg(i, k) == IF Discipline = "operand" THEN 5 ELSE 10 * i + k
Tab == 7
F(a) == a * a + Tab
Shared == Discipline \in {"shared", "locked"}
Pool == Discipline \in {"pool", "early"}
Late == Discipline \in {"once", "lazy"}

Init ==
  /\ pc = [i \in P |-> "call"] /\ round = [i \in P |-> 1] /\ ans = [i \in P |-> <<>>]
  /\ mem = [s \in 0..Callers |-> 0] /\ slot = [i \in P |-> IF Shared THEN 0 ELSE i]
  /\ tab = (IF Late THEN 0 ELSE Tab) /\ ready = ~ Late /\ got = [i \in P |-> 0]
  /\ lock = 0 /\ free = P /\ x = <<0, 5>>

Keep(v) == UNCHANGED v
Goto(i, l) == pc' = [pc EXCEPT ![i] = l]

\* the call begins: scratch memory is obtained
Call(i) ==
  /\ pc[i] = "call" /\ round[i] <= Rounds
  /\ (Discipline = "locked" => lock = 0)
  /\ lock' = (IF Discipline = "locked" THEN i ELSE lock)
  /\ IF Pool THEN \E s \in free : slot' = [slot EXCEPT ![i] = s] /\ free' = free \ {s} ELSE Keep(<<slot, free>>)
  /\ Goto(i, "table") /\ Keep(<<round, mem, tab, ready, got, ans, x>>)
\* the table is looked for and, if need be, made
Table(i) ==
  /\ pc[i] = "table"
  /\ IF ready THEN Goto(i, "write") /\ Keep(<<tab, ready>>)
     ELSE IF Discipline = "lazy" THEN ready' = TRUE /\ Goto(i, "fill") /\ Keep(tab)      \* announced, then made
     ELSE tab' = Tab /\ ready' = TRUE /\ Goto(i, "write")
  /\ Keep(<<round, mem, slot, got, ans, lock, free, x>>)
Fill(i) == pc[i] = "fill" /\ tab' = Tab /\ Goto(i, "write") /\ Keep(<<round, mem, slot, ready, got, ans, lock, free, x>>)
Write(i) ==
  /\ pc[i] = "write"
  /\ IF Discipline = "operand"
     THEN x' = <<0, x[2]>> /\ Keep(mem) /\ Goto(i, "write2")                             \* taken apart, then put together
     ELSE mem' = [mem EXCEPT ![slot[i]] = Arg(i, round[i])] /\ Keep(x) /\ Goto(i, IF Discipline = "early" THEN "giveback" ELSE "read")
  /\ Keep(<<round, slot, tab, ready, got, ans, lock, free>>)
\* (the normal form of an operand x = (carry, low) that is stored in two words)
Write2(i) == pc[i] = "write2" /\ x' = (IF x[2] = 5 THEN <<1, 4>> ELSE <<0, 5>>) /\ Goto(i, "read") /\ Keep(<<round, mem, slot, tab, ready, got, ans, lock, free>>)
GiveBack(i) == pc[i] = "giveback" /\ free' = free \cup {slot[i]} /\ Goto(i, "read") /\ Keep(<<round, mem, slot, tab, ready, got, ans, lock, x>>)
Read(i) ==
  /\ pc[i] = "read"
  /\ got' = [got EXCEPT ![i] = IF Discipline = "operand" THEN x[1] + x[2] ELSE mem[slot[i]]]
  /\ Goto(i, "return") /\ Keep(<<round, mem, slot, tab, ready, ans, lock, free, x>>)
Return(i) ==
  /\ pc[i] = "return"
  /\ ans' = [ans EXCEPT ![i] = Append(@, got[i] * got[i] + tab)]
  /\ round' = [round EXCEPT ![i] = @ + 1] /\ Goto(i, "call")
  /\ lock' = (IF Discipline = "locked" THEN 0 ELSE lock)
  /\ free' = (IF Discipline = "pool" THEN free \cup {slot[i]} ELSE free)
  /\ Keep(<<mem, slot, tab, ready, got, x>>)

Next == \E i \in P : Call(i) \/ Table(i) \/ Fill(i) \/ Write(i) \/ Write2(i) \/ GiveBack(i) \/ Read(i) \/ Return(i)

Alone == \A i \in P : \A k \in DOMAIN ans[i] : ans[i][k] = F(Arg(i, k))
\* every call comes to an end
Done == \A i \in P : round[i] = Rounds + 1
NoStop == Done \/ ENABLED Next
=============================================================================
