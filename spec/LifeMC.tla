------------------------------- MODULE LifeMC -------------------------------
(***************************************************************************)
(* Goroutines that share parameters and proofs (C05, C07, C12), at the     *)
(* granularity of single reads and writes of memory cells.  A cell holds a *)
(* value and the form in which it is stored ("plain" or "normal"); equal   *)
(* values in different forms are the same element.  An operation           *)
(*   verify    reads every cell of a proof and of the parameters,          *)
(*   encode    reads every cell of a proof,                                *)
(*   prove     reads the parameters and writes the cells of a new proof    *)
(* and Discipline says where it keeps its intermediate results:            *)
(*   own         in memory of its own: what the implementation must do     *)
(*   normalise   an operation that needs the normal form of an element     *)
(*               stores it in place                                        *)
(*   scratch     intermediate results are in one shared variable           *)
(*   inplace     verification accumulates in the first cell of the proof   *)
(* TLC shows that "own" is safe and that each of the others is not, which  *)
(* is what the conformance checks of C05 and C12 look for: a digest of all *)
(* cells around every operation, the race detector, and the verdicts.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Cells, Proofs, Discipline, MaxOps
VARIABLES mem,        \* the shared cells: <<object, index>> -> [v, form]
          tmp,        \* the shared scratch variable
          st,         \* of each goroutine: idle, or what it is doing
          done,       \* finished operations: [op, obj, res]
          made        \* the proofs that exist

vars == <<mem, tmp, st, done, made>>
Idx == 1..Cells
Par == "par"
\* the value of a cell when it was made; what a verifier computes from the cells
Orig(o, i) == IF o = Par THEN 10 + i ELSE 3 + i
Seq2(o) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Orig(o, i) + 2 * S(i - 1) IN S(Cells)
Idle == [op |-> "idle"]
\* the cells an operation reads, in order
Reads(op, o) ==
  LET own == [i \in Idx |-> <<o, i>>] par == [i \in Idx |-> <<Par, i>>] IN
  CASE op = "verify" -> own \o par [] op = "encode" -> own [] op = "prove" -> par
Expected(op, o) ==
  CASE op = "verify" -> Seq2(Par) + 2 ^ Cells * Seq2(o) [] op = "encode" -> Seq2(o) [] op = "prove" -> Seq2(Par)

First == CHOOSE o \in Proofs : TRUE
Init ==
  /\ mem = [c \in ({Par} \cup Proofs) \X Idx |-> [v |-> Orig(c[1], c[2]), form |-> "plain"]]
  /\ tmp = 0 /\ st = [p \in Procs |-> Idle] /\ done = <<>> /\ made = {First}

Start(p) ==
  /\ st[p] = Idle /\ Len(done) + Cardinality({q \in Procs : st[q] # Idle}) < MaxOps
  /\ \/ \E op \in {"verify", "encode"}, o \in made : st' = [st EXCEPT ![p] = [op |-> op, o |-> o, i |-> 1, acc |-> 0, ph |-> "read"]] /\ made' = made
     \/ \E o \in Proofs : o \notin made /\ (\A q \in Procs : st[q] # Idle => st[q].op # "prove" \/ st[q].o # o)
          /\ st' = [st EXCEPT ![p] = [op |-> "prove", o |-> o, i |-> 1, acc |-> 0, ph |-> "read"]] /\ made' = made
  /\ tmp' = tmp /\ mem' = mem /\ done' = done

Cell(s) == Reads(s.op, s.o)[s.i]
\* one read: acc := v + 2 acc
Step(p) ==
  LET s == st[p] c == Cell(s) IN
  /\ s # Idle /\ s.ph = "read" /\ s.i <= Len(Reads(s.op, s.o))
  /\ LET a == IF Discipline = "scratch" /\ s.i > 1 THEN tmp ELSE s.acc
         n == mem[c].v + 2 * a
     IN  /\ st' = [st EXCEPT ![p].acc = n, ![p].i = @ + 1, ![p].ph = IF Discipline = "normalise" /\ mem[c].form = "plain" THEN "store" ELSE "read"]
         /\ tmp' = IF Discipline = "scratch" THEN n ELSE tmp
  /\ mem' = mem /\ done' = done /\ made' = made
\* the write of the lazy normalisation
Store(p) ==
  LET s == st[p] c == Reads(s.op, s.o)[s.i - 1] IN
  /\ s # Idle /\ s.ph = "store"
  /\ mem' = [mem EXCEPT ![c].form = "normal"]
  /\ st' = [st EXCEPT ![p].ph = "read"]
  /\ UNCHANGED <<tmp, done, made>>
Finish(p) ==
  LET s == st[p] IN
  /\ s # Idle /\ s.ph = "read" /\ s.i > Len(Reads(s.op, s.o))
  /\ st' = [st EXCEPT ![p] = Idle]
  /\ done' = Append(done, [op |-> s.op, o |-> s.o, res |-> s.acc])
  /\ made' = IF s.op = "prove" THEN made \cup {s.o} ELSE made
  /\ mem' = IF Discipline = "inplace" /\ s.op = "verify" THEN [mem EXCEPT ![<<s.o, 1>>].v = s.acc] ELSE mem
  /\ tmp' = tmp
Next == \E p \in Procs : Start(p) \/ Step(p) \/ Store(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars

\* every operation gives the result of a sequential execution
Results == \A i \in DOMAIN done : done[i].res = Expected(done[i].op, done[i].o)
\* values and forms of everything shared are as they were made
Untouched == \A c \in DOMAIN mem : mem[c] = [v |-> Orig(c[1], c[2]), form |-> "plain"]
\* the access each goroutine makes next
Access(p) ==
  LET s == st[p] IN
  IF s = Idle THEN {}
  ELSE IF s.ph = "store" THEN {[cell |-> Reads(s.op, s.o)[s.i - 1], write |-> TRUE]}
  ELSE (IF s.i <= Len(Reads(s.op, s.o)) THEN {[cell |-> Cell(s), write |-> FALSE]}
        ELSE IF Discipline = "inplace" /\ s.op = "verify" THEN {[cell |-> <<s.o, 1>>, write |-> TRUE]} ELSE {})
       \cup (IF Discipline = "scratch" /\ s.i <= Len(Reads(s.op, s.o)) THEN {[cell |-> <<"tmp", 0>>, write |-> TRUE]} ELSE {})
NoRace == \A p, q \in Procs : p # q => \A a \in Access(p), b \in Access(q) : a.cell = b.cell => ~ a.write /\ ~ b.write
=============================================================================
