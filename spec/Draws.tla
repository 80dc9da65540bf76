-------------------------------- MODULE Draws --------------------------------
(***************************************************************************)
(* Operations that need random numbers, and a source that may fail or      *)
(* deliver in pieces.  The state machine is that of one operation: it      *)
(* asks for K numbers of W pieces each, and releases a result or stops.    *)
(* "res" is what was released: for each number where its pieces came from. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS K, W, Discipline      \* Discipline: what the operation does with a read that failed or is incomplete
VARIABLES pos,       \* pieces delivered by the source so far
          got,       \* numbers complete: sequences of pieces, 0 for a piece that is not from the source
          cur,       \* pieces of the number being read
          left,      \* failures the source may still show
          dead,      \* the source has failed for good
          st         \* "run", "stopped", "released"
vars == <<pos, got, cur, left, dead, st>>

Init == pos = 0 /\ got = <<>> /\ cur = <<>> /\ left = 2 /\ dead = FALSE /\ st = "run"
Pad(s) == [i \in 1..W |-> IF i <= Len(s) THEN s[i] ELSE 0]
\* the number is complete
Complete(s) == IF Len(got) + 1 = K THEN st' = "released" /\ got' = Append(got, s) /\ cur' = <<>>
               ELSE st' = st /\ got' = Append(got, s) /\ cur' = <<>>
\* the source delivers m pieces (none is possible)
Deliver(m) ==
  /\ st = "run" /\ ~ dead /\ Len(cur) + m <= W /\ pos' = pos + m /\ UNCHANGED <<left, dead>>
  /\ LET s == cur \o [i \in 1..m |-> pos + i] IN
     IF Len(s) = W THEN Complete(s)
     ELSE IF Discipline = "oneread" THEN Complete(Pad(s))
     ELSE cur' = s /\ UNCHANGED <<got, st>>
\* the source fails, once or for good
Fail(forgood) ==
  /\ st = "run" /\ (dead \/ left > 0) /\ left' = (IF dead THEN left ELSE left - 1) /\ dead' = (dead \/ forgood) /\ UNCHANGED pos
  /\ CASE Discipline = "retry" /\ left' > 0 /\ ~ dead' -> UNCHANGED <<got, cur, st>>
       [] Discipline = "zero" -> Complete(Pad(cur))
       [] Discipline = "last" /\ got # <<>> -> Complete(got[Len(got)])
       [] OTHER -> st' = "stopped" /\ UNCHANGED <<got, cur>>
Next == \/ \E m \in 0..W : Deliver(m)
        \/ \E f \in BOOLEAN : Fail(f)
Spec == Init /\ [][Next]_vars
Bounded == pos <= K * W

\* what is released is what the source delivered, every piece of it once
FromSource == st = "released" => Len(got) = K /\ \A i \in 1..K, j \in 1..W : got[i][j] # 0
Once == st = "released" => Cardinality(UNION {{got[i][j] : j \in 1..W} : i \in 1..K}) = K * W
FailStop == FromSource /\ Once
\* in pieces or at once, with failures that were mended or without: the same numbers
SameNumbers == st = "released" => \A i \in 1..K, j \in 1..W : got[i][j] = (i - 1) * W + j
\* a source that has failed for good gives nothing that was not complete by then
NothingAfter == dead => st # "run" \/ Len(got) < K
=============================================================================
